import gen
import build as B

BOUND = "all DAGs on up to 5 nodes (one labeling); random DAGs of up to 12 nodes"


def cases(seed, tier):
    for n in (1, 2, 3, 4, 5):
        for sp in gen.dags(n, ["a"], unique_siblings=False):
            yield {"kind": "exhaustive", "sp": sp}
    rng = gen.rng_for(seed, "p04")
    for i in range(10000 if tier == "quick" else 20000):
        n = rng.randint(1, 12)
        yield {"kind": "random", "sp": gen.rand_dag(rng, n, ["a", "b", "c"], False)}


def check(case):
    nodes = B.build_nodes(case["sp"])
    roots = [nodes[i] for i in case["sp"]["r"]]
    snap = B.snapshot(nodes)

    memo = {}

    def want(n):
        if id(n) not in memo:
            memo[id(n)] = [(n,)] if not n.parents else [p + (n,) for q in n.parents for p in want(q)]
        return memo[id(n)]

    for n in nodes:
        w = [tuple(id(x) for x in p) for p in want(n)]
        got = n.paths()
        g = [tuple(id(x) for x in p) for p in got]
        if sorted(g) != sorted(w):
            yield "paths of %s: %d returned, %d expected" % (n, len(g), len(w))
        if not isinstance(got, list) or not all(isinstance(p, tuple) for p in got):
            yield "paths are not a list of tuples"
        if len(w) == 1:
            p = n.path()
            if tuple(id(x) for x in p) != w[0]:
                yield "path of %s is wrong" % n
        else:
            try:
                n.path()
                yield "path() returns although there are %d paths" % len(w)
            except Exception as e:
                if type(e).__name__ != "MultiplePathError":
                    yield "path() raises %s" % type(e).__name__
    if B.snapshot(nodes) != snap:
        yield "the graph was changed"
