import itertools
import gen
import build as B
from hatchet.graph import Graph

BOUND = ("all DAGs on up to 4 nodes with frames from {a,b}; "
         "random graphs (trees, DAGs, cyclic graphs, equal sibling frames, several roots) of up to 14 nodes")


def cases(seed, tier):
    for n in (1, 2, 3, 4):
        for sp in gen.dags(n, ["a", "b"], unique_siblings=False):
            if n == 4 and not sp["f"][0]["name"] == "a":
                continue
            yield {"kind": "exhaustive", "sp": sp, "nid": list(range(n))[::-1], "start": n // 2, "pre": []}
    rng = gen.rng_for(seed, "p01")
    for i in range(15000 if tier == "quick" else 40000):
        n = rng.randint(1, 14)
        k = i % 3
        labels = gen.rand_frames(rng, rng.randint(1, 5), True)
        sp = gen.rand_tree(rng, n, labels, False) if k == 0 else gen.rand_dag(rng, n, labels, False)
        if k == 2:
            for _ in range(rng.randint(1, 3)):
                a, b = rng.randrange(n), rng.randrange(n)
                if b not in sp["c"][a]:
                    sp["c"][a].insert(rng.randint(0, len(sp["c"][a])), b)
        for c in sp["c"]:
            rng.shuffle(c)
        nid = list(range(n))
        rng.shuffle(nid)
        yield {"kind": ["tree", "dag", "cyclic"][k], "sp": sp, "nid": nid, "start": rng.randrange(n),
               "pre": rng.sample(range(n), rng.randint(0, min(2, n)))}


def oracle(roots, order, key, visited):
    out = []

    def rec(n):
        if id(n) in visited:
            visited[id(n)] += 1
            return
        visited[id(n)] = 1
        if order == "pre":
            out.append(n)
        for c in sorted(n.children, key=key):
            rec(c)
        if order == "post":
            out.append(n)

    for r in roots:
        rec(r)
    return out


def fr(n):
    return (B.fkey(n), id(n))


def ids(xs):
    return [id(x) for x in xs]


def check(case):
    nodes = B.build_nodes(case["sp"])
    for n, k in zip(nodes, case["nid"]):
        n._hatchet_nid = k
    roots = [nodes[i] for i in case["sp"]["r"]]
    g = Graph(list(roots))
    snap = B.snapshot(roots)
    start = nodes[case["start"]]
    reach_g, reach_s = B.reach(roots), B.reach([start])
    for meth, key in (("traverse", fr), ("node_order_traverse", lambda n: n._hatchet_nid)):
        for order in ("pre", "post"):
            for what, obj, rs in (("graph", g, sorted(roots, key=key)), ("node", start, [start])):
                pre = {id(nodes[i]): 5 for i in case["pre"]}
                for init in (None, pre):
                    vis_o = dict(init or {})
                    want = oracle(rs, order, key, vis_o)
                    vis = None if init is None else dict(init)
                    got = list(getattr(obj, meth)(order=order, visited=vis))
                    if ids(got) != ids(want):
                        yield "%s %s(order=%r): yields %s, expected %s" % (what, meth, order, [str(x) for x in got], [str(x) for x in want])
                        return
                    if vis is not None and vis != vis_o:
                        yield "%s %s: visit counter differs" % (what, meth)
                    if init is None:
                        full = reach_g if what == "graph" else reach_s
                        if len(got) != len(full) or set(ids(got)) != set(ids(full)):
                            yield "%s %s misses or repeats nodes" % (what, meth)
                        if ids(list(getattr(obj, meth)(order=order))) != ids(got):
                            yield "%s %s is not repeatable" % (what, meth)
                        for attrs in ("name", ["name", "type"], ["name"]):
                            av = list(getattr(obj, meth)(order=order, attrs=attrs))
                            ev = [x.frame.attrs.get(attrs) if isinstance(attrs, str) else tuple(x.frame.attrs.get(a) for a in attrs) for x in want]
                            if av != ev:
                                yield "%s %s(attrs=%r) yields wrong values" % (what, meth, attrs)
    if len(g) != len(reach_g):
        yield "len(graph) is %d, expected %d" % (len(g), len(reach_g))
    cnt = {}
    oracle(sorted(roots, key=fr), "pre", fr, cnt)
    if bool(g.is_tree()) != (len(roots) == 1 and all(v == 1 for v in cnt.values())):
        yield "is_tree() is wrong"
    if B.snapshot(roots) != snap:
        yield "traversal changed the graph"
    for bad in ("", "in", None):
        try:
            list(start.traverse(order=bad))
            yield "traverse accepts order=%r" % (bad,)
        except ValueError:
            pass
