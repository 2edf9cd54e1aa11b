import numpy as np
import gen
import build as B
from hatchet.graphframe import GraphFrame

BOUND = "all forests on up to 4 nodes with frames from {a,b} and all DAGs on up to 4 nodes with distinct frames, with every set of kept nodes; random trees and collision-free DAGs of up to 10 nodes, single- and multi-indexed"


def cases(seed, tier):
    for n in (1, 2, 3, 4):
        for sp in gen.forests(n, ["a", "b"], unique_siblings=True):
            for mask in range(1, 2 ** n):
                yield {"kind": "forest", "sp": sp, "keep": [mask >> i & 1 for i in range(n)], "ts": mask, "index": ["node"], "no": 0}
        for sp in gen.dags(n, ["a"], unique_siblings=False):
            sp = dict(sp, f=[{"name": "abcd"[i], "type": "function"} for i in range(n)])
            for mask in range(1, 2 ** n):
                yield {"kind": "dag", "sp": sp, "keep": [mask >> i & 1 for i in range(n)], "ts": mask, "index": ["node"], "no": 0}
    rng = gen.rng_for(seed, "p08")
    for i in range(9000 if tier == "quick" else 40000):
        n = rng.randint(1, 10)
        labels = gen.rand_frames(rng, rng.randint(1, 4))
        if i % 2:
            sp = gen.rand_tree(rng, n, labels, rng.random() < 0.8)
        else:
            sp = gen.rand_dag(rng, n, labels, True)
            sp["f"] = [dict(f, name=f["name"] + "_%d" % rng.randint(0, 99)) for f in sp["f"]]
        keep = [int(rng.random() < 0.6) for _ in range(n)]
        if not any(keep):
            keep[rng.randrange(n)] = 1
        yield {"kind": "random", "sp": sp, "keep": keep, "ts": rng.randint(0, 9999), "no": int(i % 5 == 0),
               "index": rng.choice([["node"], ["node"], ["node", "rank"], ["node", "rank", "thread"]])}


def fk(nodes, kept):
    """first kept descendants of a node (through dropped nodes), in a set of ids"""
    memo = {}

    def first(n):
        if id(n) not in memo:
            memo[id(n)] = {id(n)} if id(n) in kept else set().union(*[first(c) for c in n.children])
        return memo[id(n)]

    return first


def check(case):
    sp = case["sp"]
    index = tuple(case["index"])
    rng = gen.rng_for(case["ts"])
    gf, nodes = B.build_gf(sp, rng, index, nan=0.1)
    tree = all(len(n.parents) <= 1 for n in nodes)
    if case["no"]:
        gf.graph.node_ordering = True
    byid = {id(n): n for n in nodes}
    kept = {id(n) for n, k in zip(nodes, case["keep"]) if k}
    df = gf.dataframe
    mask = [id(ix[0] if isinstance(ix, tuple) else ix) in kept for ix in df.index]
    fgf = GraphFrame(gf.graph, df[mask].copy(), ["time"], ["time (inc)"])
    snap = B.snapshot(gf.graph.roots)
    import p05
    d0 = p05.dfsnap(fgf.dataframe)
    first = fk(nodes, kept)
    # expected structure: nested merge of frames
    kids = {i: set().union(*[first(c) for c in byid[i].children]) for i in kept}
    roots = set().union(*[first(r) for r in [nodes[i] for i in sp["r"]]])
    vals = {}
    for ix, row in zip(fgf.dataframe.index, fgf.dataframe.to_dict("records")):
        n, rest = (ix[0], ix[1:]) if isinstance(ix, tuple) else (ix, ())
        vals.setdefault(id(n), {})[tuple(rest)] = row

    def groups(ids_):
        out = {}
        for i in ids_:
            out.setdefault(B.fkey(byid[i]), set()).add(i)
        return out

    collision = any(len(g) > 1 for s in list(kids.values()) + [roots] for g in groups(s).values())
    if not tree and collision:
        return
    res = fgf.squash(update_inc_cols=True)
    if B.snapshot(gf.graph.roots) != snap or p05.dfsnap(fgf.dataframe) != d0:
        yield "squash changed the original"
    if res.graph is gf.graph:
        yield "squash returns the old graph"
    new = B.reach(res.graph.roots)
    rows = {}
    for ix, row in zip(res.dataframe.index, res.dataframe.to_dict("records")):
        n, rest = (ix[0], ix[1:]) if isinstance(ix, tuple) else (ix, ())
        if tuple(rest) in rows.setdefault(id(n), {}):
            yield "several rows for one node"
        rows[id(n)][tuple(rest)] = row
    if set(rows) != {id(n) for n in new}:
        yield "the table has rows for %d nodes, the graph has %d nodes" % (len(rows), len(new))
        return
    if {id(n) for n in new} & set(byid):
        yield "the squashed graph shares nodes with the original"
    if sorted(n._hatchet_nid for n in new) != list(range(len(new))):
        yield "the squashed graph is not numbered afresh: %s" % sorted(n._hatchet_nid for n in new)
    yield from B.mirror_errors(res.graph.roots)
    yield from B.dup_edges(res.graph.roots)
    rest_keys = list(next(iter(vals.values())).keys())
    seen = {}

    def nansum(xs):
        xs = [x for x in xs if not np.isnan(x)]
        return sum(xs) if xs else float("nan")

    same = lambda a, b: (np.isnan(a) and np.isnan(b)) or abs(a - b) < 1e-9  # noqa: E731

    def match(exp_ids, got, where):
        eg = groups(exp_ids)
        gg = {}
        for n in got:
            if B.fkey(n) in gg:
                yield "%s: two nodes with equal frame %s" % (where, n)
                return
            gg[B.fkey(n)] = n
        if set(eg) != set(gg):
            yield "%s: children frames are %s, expected %s" % (where, sorted(gg), sorted(eg))
            return
        for k, members in eg.items():
            n = gg[k]
            if id(n) in seen:
                if seen[id(n)] != frozenset(members):
                    yield "%s: node %s stands for different nodes" % (where, n)
                continue
            seen[id(n)] = frozenset(members)
            for rk in rest_keys:
                w = nansum([vals[m][rk]["time"] for m in members])
                if rk not in rows[id(n)] or not same(rows[id(n)][rk]["time"], w):
                    yield "value of %s is %s, expected %s" % (n, rows[id(n)].get(rk), w)
                elif rows[id(n)][rk]["name"] not in [vals[m][rk]["name"] for m in members]:
                    yield "name of %s is wrong" % n
            yield from match(set().union(*[kids[m] for m in members]), n.children, str(n))

    yield from match(roots, res.graph.roots, "roots")
    if len(seen) != len(new):
        yield "%d nodes in the squashed graph, %d expected" % (len(new), len(seen))
    for n in new:
        for rk in rest_keys:
            w = nansum([rows[id(x)][rk]["time"] for x in B.reach([n])])
            if not same(rows[id(n)][rk]["time (inc)"], w):
                yield "inclusive value of %s is %s, expected %s" % (n, rows[id(n)][rk]["time (inc)"], w)
