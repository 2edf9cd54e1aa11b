import gen
import build as B
from hatchet.graph import Graph
import p01

BOUND = "all DAGs on up to 4 nodes with frames from {a,b}; random trees and DAGs of up to 14 nodes with random previous numbers, with and without explicit node order"


def cases(seed, tier):
    rng = gen.rng_for(seed, "p02")
    for n in (1, 2, 3, 4):
        for sp in gen.dags(n, ["a", "b"], unique_siblings=False):
            if n == 4 and not sp["f"][0]["name"] == "a":
                continue
            nid = list(range(n))
            rng.shuffle(nid)
            yield {"kind": "exhaustive", "sp": sp, "nid": nid, "no": bool(rng.getrandbits(1))}
    for i in range(20000 if tier == "quick" else 60000):
        n = rng.randint(1, 14)
        labels = gen.rand_frames(rng, rng.randint(1, 5), True)
        sp = gen.rand_tree(rng, n, labels, False) if i % 2 else gen.rand_dag(rng, n, labels, False)
        for c in sp["c"]:
            rng.shuffle(c)
        nid = rng.sample(range(rng.choice([n, 3 * n])), n)
        if rng.random() < 0.2:
            nid = [-1] * n
        yield {"kind": "tree" if i % 2 else "dag", "sp": sp, "nid": nid, "no": len(set(nid)) == n and rng.random() < 0.5}


def check(case):
    nodes = B.build_nodes(case["sp"])
    for n, k in zip(nodes, case["nid"]):
        n._hatchet_nid = k
    roots = [nodes[i] for i in case["sp"]["r"]]
    g = Graph(list(roots))
    g.node_ordering = bool(case["no"])
    old = {id(n): n._hatchet_nid for n in nodes}
    key = (lambda n: old[id(n)]) if case["no"] else p01.fr
    want = p01.oracle(sorted(roots, key=key), "pre", key, {})
    strip = lambda: [x[:1] + x[3:] for x in B.snapshot(roots)]  # noqa: E731
    keep = lambda: [(x[0],) + x[3:] for x in B.snapshot(roots)]  # noqa: E731
    before = keep()
    for rnd in range(2):
        g.enumerate_traverse()
        got = [n._hatchet_nid for n in want]
        if got != list(range(len(want))):
            yield "numbers along the traversal are %s%s" % (got, " after a second enumeration" if rnd else "")
            return
        for r in roots:
            if r._depth != 0:
                yield "root %s has depth %s" % (r, r._depth)
        rid = {id(r) for r in roots}
        for n in want:
            if id(n) in rid:
                continue
            if n._depth - 1 not in [p._depth for p in n.parents]:
                yield "node %s has depth %s, its parents %s" % (n, n._depth, [p._depth for p in n.parents])
        if keep() != before:
            yield "enumeration changed frames or edges"
        if not case["no"]:
            continue
    if not case["no"]:
        for meth in ("from_lists",):
            h = Graph.from_lists(["a", ["b", "c"], "d"])
            if [n._hatchet_nid for n in h.traverse()] != [0, 1, 2, 3]:
                yield "from_lists does not number the graph"
