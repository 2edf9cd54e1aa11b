import copy as cp
import pandas as pd
import gen
import build as B
from hatchet.graphframe import GraphFrame

BOUND = "all DAGs on up to 4 nodes with frames from {a,b}; random trees and DAGs of up to 10 nodes (equal sibling frames, explicit node order), with single- and multi-indexed tables of float metrics"


def cases(seed, tier):
    rng = gen.rng_for(seed, "p05")
    for n in (1, 2, 3, 4):
        for sp in gen.dags(n, ["a", "b"], unique_siblings=False):
            if n == 4 and not sp["f"][0]["name"] == "a":
                continue
            yield {"kind": "exhaustive", "sp": sp, "no": False, "nid": list(range(n)), "ts": 1, "index": ["node"], "gf": False}
    for i in range(20000 if tier == "quick" else 60000):
        n = rng.randint(1, 10)
        labels = gen.rand_frames(rng, rng.randint(1, 5), True)
        u = rng.random() < 0.5
        sp = gen.rand_tree(rng, n, labels, u) if i % 2 else gen.rand_dag(rng, n, labels, u)
        nid = list(range(n))
        rng.shuffle(nid)
        yield {"kind": "random", "sp": sp, "no": rng.random() < 0.4, "nid": nid, "ts": rng.randint(0, 999), "gf": i % 3 == 0,
               "index": rng.choice([["node"], ["node", "rank"], ["node", "rank", "thread"]])}


def iso_errors(g, h, m, what):
    """m: id(old) -> new"""
    old = B.reach(g.roots)
    new = B.reach(h.roots)
    oid, nid = {id(x) for x in old}, {id(x) for x in new}
    if oid & nid:
        yield "%s: shares nodes with the original" % what
    if len(new) != len(old):
        yield "%s: %d nodes instead of %d" % (what, len(new), len(old))
    if set(m) != oid or {id(x) for x in m.values()} != nid or len({id(x) for x in m.values()}) != len(m):
        yield "%s: the mapping is not a bijection between the nodes" % what
        return
    for o in old:
        n = m[id(o)]
        if not (n.frame.attrs == o.frame.attrs) or n.frame is o.frame or n.frame.attrs is o.frame.attrs:
            yield "%s: frame of %s is not an independent equal frame" % (what, o)
        if [id(m[id(c)]) for c in o.children] != [id(c) for c in n.children]:
            yield "%s: children of %s differ" % (what, o)
        if [id(m[id(c)]) for c in o.parents] != [id(c) for c in n.parents]:
            yield "%s: parents of %s differ" % (what, o)
    if [id(m[id(r)]) for r in g.roots] != [id(r) for r in h.roots]:
        yield "%s: roots differ" % what


def vandalise(h):
    ns = B.reach(h.roots)
    for n in ns:
        n.frame.attrs["name"] = "zzz"
        n._hatchet_nid = 77
        n._depth = 99
    ns[0].children.clear()
    ns[-1].parents.append(ns[0])
    h.roots.append(ns[-1])


def dfsnap(df):
    return (list(df.index.names), list(df.columns), [[id(k[0]) if isinstance(k, tuple) else id(k)] + (list(k[1:]) if isinstance(k, tuple) else []) for k in df.index],
            [[repr(x) for x in r] for r in df.values.tolist()])


def check(case):
    g, nodes = B.build_graph(case["sp"], enumerate_=False)
    if case["no"]:
        for n, k in zip(nodes, case["nid"]):
            n._hatchet_nid = k
        g.node_ordering = True
    g.enumerate_traverse()
    snap = B.snapshot(g.roots)
    m = {}
    h = g.copy(m)
    yield from iso_errors(g, h, {id(k): v for k, v in m.items()}, "graph copy")
    if bool(h.node_ordering) != bool(g.node_ordering):
        yield "graph copy: explicit node order lost"
    if case["no"] and [m[x]._hatchet_nid for x in g.node_order_traverse()] != list(range(len(B.reach(g.roots)))):
        yield "graph copy: explicit node order not kept"
    if sorted(n._hatchet_nid for n in B.reach(h.roots)) != list(range(len(B.reach(h.roots)))):
        yield "graph copy: not numbered"
    h2 = g.copy()
    if h2 is g or len(B.reach(h2.roots)) != len(B.reach(g.roots)):
        yield "graph copy without mapping is wrong"
    if B.snapshot(g.roots) != snap:
        yield "copying changed the original"
    vandalise(h)
    if B.snapshot(g.roots) != snap:
        yield "changing the copied graph changed the original"
    if not case["gf"]:
        return
    rng = gen.rng_for(case["ts"])
    df = B.table(B.reach(g.roots), tuple(case["index"]), ["time", "time (inc)", "x"], rng, nan=0.1)
    meta = {"a": [1], "b": "c"}
    gf = GraphFrame(g, df, ["time", "x"], ["time (inc)"], "x", meta)
    s0, d0 = B.snapshot(g.roots), dfsnap(gf.dataframe)
    for kind in ("copy", "deepcopy"):
        c = getattr(gf, kind)()
        if (c.exc_metrics, c.inc_metrics, c.default_metric, c.metadata) != (["time", "x"], ["time (inc)"], "x", {"a": [1], "b": "c"}):
            yield "%s: metrics, default or metadata lost" % kind
        if c.dataframe is gf.dataframe:
            yield "%s: shares the table object" % kind
        if kind == "copy":
            if c.graph is not g:
                yield "copy: does not share the graph"
            if dfsnap(c.dataframe) != d0:
                yield "copy: table differs"
        else:
            cs = dfsnap(c.dataframe)
            if cs[:2] != d0[:2] or cs[3] != d0[3]:
                yield "deepcopy: table values differ"
            m2 = {}
            for a, b in zip(gf.dataframe.index, c.dataframe.index):
                a, ra = (a[0], a[1:]) if isinstance(a, tuple) else (a, ())
                b, rb = (b[0], b[1:]) if isinstance(b, tuple) else (b, ())
                if ra != rb or m2.setdefault(id(a), b) is not b:
                    yield "deepcopy: table rows do not correspond"
                    break
            yield from iso_errors(g, c.graph, m2, "deepcopy")
            vandalise(c.graph)
        c.exc_metrics.append("q")
        c.inc_metrics.append("q")
        c.metadata["new"] = 1
        c.dataframe["new"] = 5.0
        c.dataframe = c.dataframe.iloc[:1]
        if kind == "deepcopy":
            c = gf.deepcopy()
            c.dataframe["time"] = -5.0
            c.dataframe.iloc[0, 0] = "changed" if c.dataframe.dtypes.iloc[0] == object else 1.5
            c.metadata["a"].append(2)
        if B.snapshot(g.roots) != s0 or dfsnap(gf.dataframe) != d0:
            yield "changing a %s changed the original" % kind
        if gf.exc_metrics != ["time", "x"] or gf.inc_metrics != ["time (inc)"] or gf.metadata != {"a": [1], "b": "c"}:
            yield "changing the metrics or metadata of a %s changed the original" % kind
