"""Builds real hatchet objects from graph specs, and reads them back (real code from /repo)."""
import numpy as np
import pandas as pd
from hatchet.node import Node
from hatchet.frame import Frame
from hatchet.graph import Graph
from hatchet.graphframe import GraphFrame


def build_nodes(sp, attr_orders=None):
    nodes = []
    for i, a in enumerate(sp["f"]):
        items = list(a.items())
        if attr_orders:
            attr_orders.shuffle(items)
        nodes.append(Node(Frame(dict(items))))
    for i, ch in enumerate(sp["c"]):
        for c in ch:
            nodes[i].add_child(nodes[c])
            nodes[c].add_parent(nodes[i])
    return nodes


def build_graph(sp, enumerate_=True, rng=None):
    nodes = build_nodes(sp, rng)
    g = Graph([nodes[i] for i in sp["r"]])
    if enumerate_:
        g.enumerate_traverse()
    return g, nodes


def reach(roots):
    """Independent reachability by identity, in discovery order."""
    seen, out, st = set(), [], list(reversed(list(roots)))
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        st.extend(reversed(n.children))
    return out


def fkey(node):
    return tuple(sorted(node.frame.attrs.items()))


def snapshot(roots, with_ids=True):
    """Everything observable about a graph, keyed by object identity."""
    return [
        (id(n), n._hatchet_nid, n._depth, id(n.frame), tuple(sorted(n.frame.attrs.items(), key=repr)),
         [id(c) for c in n.children], [id(p) for p in n.parents])
        for n in reach(roots)
    ]


def paths_of(roots):
    """All root-to-node frame paths by following children from the roots (independent of Node.paths)."""
    out = set()

    def rec(n, pre, onpath):
        p = pre + (fkey(n),)
        out.add(p)
        if id(n) in onpath:
            return
        for c in n.children:
            rec(c, p, onpath | {id(n)})

    for r in roots:
        rec(r, (), frozenset())
    return out


def mirror_errors(roots):
    ns = reach(roots)
    ids = {id(n) for n in ns}
    errs = []
    from collections import Counter
    down, up = Counter(), Counter()
    for n in ns:
        for c in n.children:
            down[(id(n), id(c))] += 1
        for p in n.parents:
            up[(id(p), id(n))] += 1
            if id(p) not in ids:
                errs.append("parent %s of %s is not reachable from the roots" % (p, n))
    if down != up:
        nm = {id(n): str(n) for n in ns}
        for k in set(down) | set(up):
            if down[k] != up[k]:
                errs.append("edge %s -> %s: %d as child, %d as parent" % (nm.get(k[0]), nm.get(k[1]), down[k], up[k]))
    return errs


def dup_edges(roots):
    errs = []
    for n in reach(roots):
        if len({id(c) for c in n.children}) != len(n.children):
            errs.append("duplicate child edge at %s" % n)
        if len({id(c) for c in n.parents}) != len(n.parents):
            errs.append("duplicate parent edge at %s" % n)
    return errs


def table(nodes, index=("node",), cols=None, rng=None, ranks=2, threads=2, nan=0.0, order="shuffle"):
    """A dataframe with one row per node (x rank x thread)."""
    rows = []
    for n in nodes:
        combos = [()]
        if "rank" in index:
            combos = [c + (("rank", r),) for c in combos for r in range(ranks)]
        if "thread" in index:
            combos = [c + (("thread", t),) for c in combos for t in range(threads)]
        for c in combos:
            d = {"node": n, "name": str(n.frame.get("name"))}
            d.update(dict(c))
            for m in cols or ["time", "time (inc)"]:
                v = float(rng.randint(0, 20)) if rng else 1.0
                if rng and nan and rng.random() < nan:
                    v = float("nan")
                d[m] = v
            rows.append(d)
    df = pd.DataFrame(rows)
    df.set_index(list(index), inplace=True)
    if order == "sort":
        df.sort_index(inplace=True)
    return df


def build_gf(sp, rng=None, index=("node",), cols=("time", "time (inc)"), exc=("time",), inc=("time (inc)",), nan=0.0, sort=True, **kw):
    g, nodes = build_graph(sp)
    df = table(nodes, index, list(cols), rng, nan=nan, order="sort" if sort else "asis", **kw)
    return GraphFrame(g, df, list(exc), list(inc)), nodes
