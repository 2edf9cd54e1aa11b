import copy
import math
import os
import shutil
import tempfile
import atexit

import gen
import build as B
from hatchet.graphframe import GraphFrame

BOUND = ("random graphs of up to 10 nodes (trees and graphs with shared nodes) whose tables have finite, missing and infinite metrics (finite ones for literals), "
         "single- and multi-indexed for the file formats; random literals with and without node numbers")
_dir = []


def scratch():
    if not _dir or _dir[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="verif_p17_")
        _dir[:] = [os.getpid(), d]
        atexit.register(shutil.rmtree, d, True)
    return _dir[1]


def cases(seed, tier):
    rng = gen.rng_for(seed, "p17")
    for n in (1, 2, 3):
        for sp in gen.dags(n, ["a", "b"], unique_siblings=True):
            for how in ("literal", "json"):
                yield {"kind": how, "sp": sp, "index": ["node"], "ts": n, "order": False}
    for i in range(12000 if tier == "quick" else 40000):
        n = rng.randint(1, 10)
        how = ["literal", "json", "json", "read", "read", "hdf" if i % 36 == 5 or tier != "quick" else "literal"][i % 6]
        uniq = rng.random() < 0.5
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], uniq) if rng.random() < 0.5 else gen.rand_dag(rng, n, ["a", "b", "c"], uniq)
        idx = ["node"]
        if how in ("json", "hdf") and rng.random() < 0.5:
            idx = rng.choice([["node", "rank"], ["node", "rank", "thread"]])
        yield {"kind": how, "sp": sp, "index": idx, "ts": rng.randint(0, 99999), "order": rng.random() < 0.2, "nids": rng.random() < 0.5}


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def compare(sp, nodes, gf, gf2, new_of, ordered, cols):
    """errors unless gf2 is gf with nodes[i] replaced by new_of[i]"""
    idx = {id(n): i for i, n in enumerate(nodes)}
    if len({id(x) for x in new_of}) != len(nodes):
        yield "nodes of the original are mapped to %d nodes" % len({id(x) for x in new_of})
        return
    back = {id(x): i for i, x in enumerate(new_of)}
    reach2 = B.reach(gf2.graph.roots)
    if {id(x) for x in reach2} != set(back):
        yield "the graph read back has %d nodes, expected %d" % (len(reach2), len(nodes))
        return
    srt = (lambda x: x) if ordered else sorted
    for i, n in enumerate(nodes):
        m = new_of[i]
        if m.frame.attrs != n.frame.attrs:
            yield "node %d comes back with frame %s instead of %s" % (i, m.frame.attrs, n.frame.attrs)
        if srt([back[id(c)] for c in m.children]) != srt([idx[id(c)] for c in n.children]):
            yield "node %d comes back with children %s instead of %s" % (i, [back[id(c)] for c in m.children], [idx[id(c)] for c in n.children])
        if m._depth != n._depth and all(len(x.parents) < 2 for x in nodes):
            yield "node %d comes back with depth %s instead of %s" % (i, m._depth, n._depth)
    yield from B.mirror_errors(gf2.graph.roots)
    yield from B.dup_edges(gf2.graph.roots)
    if sorted(back[id(r)] for r in gf2.graph.roots) != sorted(idx[id(r)] for r in gf.graph.roots):
        yield "other roots are read back"
    nids = [m._hatchet_nid for m in reach2]
    if len(set(nids)) != len(nids):
        yield "two nodes read back share a number"
    if list(gf2.dataframe.index.names) != list(gf.dataframe.index.names):
        yield "index levels %s become %s" % (gf.dataframe.index.names, gf2.dataframe.index.names)
        return
    if len(gf2.dataframe) != len(gf.dataframe):
        yield "%d rows become %d" % (len(gf.dataframe), len(gf2.dataframe))
        return

    def rows(g, ids):
        out = {}
        for key, vals in zip(g.dataframe.index, g.dataframe[cols].values.tolist()):
            key = key if isinstance(key, tuple) else (key,)
            out[(ids.get(id(key[0])),) + tuple(key[1:])] = vals
        return out
    r1, r2 = rows(gf, idx), rows(gf2, back)
    if set(r1) != set(r2):
        yield "the rows name other nodes"
        return
    for k in r1:
        if not all(same(a, b) for a, b in zip(r1[k], r2[k])):
            yield "row %s comes back as %s instead of %s" % (k, r2[k], r1[k])
            return
    groups = [[repr(sp["f"][c]) for c in ch] for ch in sp["c"] + [sp["r"]]]
    if all(len(set(x)) == len(x) for x in groups) and not (gf2.graph == gf.graph):
        yield "the graph read back compares unequal"


def read_literal(case):
    """a literal written by hand; expected nodes, edges and metrics from the spec"""
    sp, rng = case["sp"], gen.rng_for(case["ts"])
    n = len(sp["f"])
    ps = gen.spec_parents(sp)
    tree = all(len(p) <= 1 for p in ps)
    nids = case["nids"] or not tree
    num = list(range(n))
    rng.shuffle(num)
    vals = [[float(rng.randint(0, 9)), float(rng.randint(0, 9))] for _ in range(n)]
    done = set()
    full = rng.random() < 0.5

    def lit(i):
        d = {"frame": dict(sp["f"][i]), "metrics": {"time": vals[i][0], "time (inc)": vals[i][1]}}
        if rng.random() < 0.3:
            d["name"] = d["frame"]["name"]
        if nids:
            d["metrics"]["_hatchet_nid"] = num[i]
        if sp["c"][i] and i not in done:
            done.add(i)
            d["children"] = [lit(c) for c in sp["c"][i]]
        elif not full and rng.random() < 0.3 and not sp["c"][i]:
            d["children"] = []
        return d

    spec = [lit(r) for r in sp["r"]]
    keep = copy.deepcopy(spec)
    gf = GraphFrame.from_literal(spec)
    if spec != keep:
        yield "reading changed the literal"
    reach = B.reach(gf.graph.roots)
    if len(reach) != n:
        yield "the literal describes %d nodes, the graph has %d" % (n, len(reach))
        return
    # correspondence by following the children in the order written
    new_of = [None] * n

    def walk(i, m):
        if new_of[i] is not None:
            return new_of[i] is m
        new_of[i] = m
        return len(m.children) == len(sp["c"][i]) and all(walk(c, k) for c, k in zip(sp["c"][i], m.children))
    if len(gf.graph.roots) != len(sp["r"]) or not all(walk(r, m) for r, m in zip(sp["r"], gf.graph.roots)):
        yield "the graph does not have the edges the literal describes"
        return
    yield from B.mirror_errors(gf.graph.roots)
    yield from B.dup_edges(gf.graph.roots)
    for i in range(n):
        if new_of[i].frame.attrs != dict({"type": "None"} if "type" not in sp["f"][i] else {}, **sp["f"][i]):
            yield "node %d has frame %s" % (i, new_of[i].frame.attrs)
        if nids and new_of[i]._hatchet_nid != num[i]:
            yield "node %d has number %s, the literal says %s" % (i, new_of[i]._hatchet_nid, num[i])
        row = gf.dataframe.loc[new_of[i]]
        if [row["time"], row["time (inc)"]] != vals[i] or row["name"] != sp["f"][i]["name"]:
            yield "node %d has row %s, the literal says %s" % (i, dict(row), vals[i])
    if len(gf.dataframe) != n or sorted(gf.dataframe.columns) != ["name", "time", "time (inc)"]:
        yield "the table has columns %s and %d rows" % (list(gf.dataframe.columns), len(gf.dataframe))
    if gf.exc_metrics != ["time"] or gf.inc_metrics != ["time (inc)"]:
        yield "metrics are %s and %s" % (gf.exc_metrics, gf.inc_metrics)


def check(case):
    if case["kind"] == "read":
        yield from read_literal(case)
        return
    rng = gen.rng_for(case["ts"])
    how = case["kind"]
    g, nodes = B.build_graph(case["sp"])
    if case["order"]:
        # explicit numbers, another order than that of the frames
        ns = list(range(len(nodes)))
        rng.shuffle(ns)
        for n, k in zip(nodes, ns):
            n._hatchet_nid = k
        g.node_ordering = True
        g.enumerate_traverse()
    df = B.table(nodes, tuple(case["index"]), ["time", "time (inc)"], rng, nan=0.0 if how == "literal" else 0.2)
    if how != "literal" and rng.random() < 0.3:
        df.iloc[0, df.columns.get_loc("time")] = float("-inf")
    if how != "literal" and rng.random() < 0.3:
        df.iloc[rng.randrange(len(df)), df.columns.get_loc(rng.choice(["time", "time (inc)"]))] = float("inf")
    if how != "literal" and rng.random() < 0.5:
        df["count"] = [rng.randint(0, 5) for _ in range(len(df))]
    default = rng.choice(["time", "time (inc)"])
    gf = GraphFrame(g, df, ["time"], ["time (inc)"], default)
    cols = list(df.columns)
    snap, keep = B.snapshot(g.roots), df.copy(deep=True)
    if how == "literal":
        lit = gf.to_literal()
        saved = copy.deepcopy(lit)
        gf2 = GraphFrame.from_literal(lit)
        if lit != saved:
            yield "reading changed the literal"
    elif how == "json":
        gf2 = GraphFrame.from_json(gf.to_json())
    else:
        p = os.path.join(scratch(), "x.h5")
        if os.path.exists(p):
            os.unlink(p)
        gf.to_hdf(p)
        gf2 = GraphFrame.from_hdf(p)
    if B.snapshot(g.roots) != snap or not df.equals(keep) or not df.index.equals(keep.index) or gf.dataframe is not df or list(df.columns) != cols:
        yield "saving changed the graphframe"
        return
    if how == "hdf":
        new_of = [None] * len(nodes)
        back = {id(n): i for i, n in enumerate(nodes)}
        for a, b in zip(df.index.get_level_values("node"), gf2.dataframe.index.get_level_values("node")):
            new_of[back[id(a)]] = b
    else:
        by = {m._hatchet_nid: m for m in B.reach(gf2.graph.roots)}
        new_of = [by.get(n._hatchet_nid) for n in nodes]
        if any(x is None for x in new_of):
            yield "a node is lost: numbers %s, expected %s" % (sorted(by), sorted(n._hatchet_nid for n in nodes))
            return
    yield from compare(case["sp"], nodes, gf, gf2, new_of, how != "literal", cols)
    if sorted(gf2.exc_metrics) != ["time"] or sorted(gf2.inc_metrics) != ["time (inc)"]:
        yield "metrics come back as %s and %s" % (gf2.exc_metrics, gf2.inc_metrics)
    if how == "hdf" and gf2.default_metric != default:
        yield "the default metric comes back as %s instead of %s" % (gf2.default_metric, default)
