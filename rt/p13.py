import pandas as pd
import gen
import build as B
from hatchet.query import Query
from hatchet.query.engine import QueryEngine

BOUND = "all patterns of up to 3 elements without adjacent any-number elements over all DAGs on up to 4 nodes with every labeling by 3 predicates (sampled); random patterns of up to 5 elements on random graphs of up to 9 nodes, single- and multi-indexed"


def patterns(n):
    import itertools
    for k in range(1, n + 1):
        for q in itertools.product(".*", repeat=k):
            if any(a == b == "*" for a, b in zip(q, q[1:])):
                continue
            yield list(q)


def cases(seed, tier):
    rng = gen.rng_for(seed, "p13")
    pats = list(patterns(3))
    for n in (1, 2, 3, 4):
        for sp in gen.dags(n, ["a"], unique_siblings=False):
            for q in pats:
                for _ in range(2 if tier == "quick" else 12):
                    yield {"kind": "small", "sp": sp, "q": q, "sat": [[int(rng.random() < 0.6) for _ in range(n)] for _ in q], "index": ["node"]}
    for i in range(8000 if tier == "quick" else 200000):
        n = rng.randint(1, 9)
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], False) if i % 2 else gen.rand_dag(rng, n, ["a", "b", "c"], False)
        while True:
            q = [rng.choice([".", "*", ".", "*", "+", 1, 2]) for _ in range(rng.randint(1, 4))]
            e = expand(q)
            if len(e) <= 6 and not any(a[0] == b[0] == "*" for a, b in zip(e, e[1:])):
                break
        p = rng.choice([0.4, 0.7, 0.9])
        yield {"kind": "random", "sp": sp, "q": q, "sat": [[int(rng.random() < p) for _ in range(n)] for _ in q],
               "index": ["node"] if i % 5 else ["node", "rank"]}


def expand(q):
    out = []
    for i, x in enumerate(q):
        if x == "+":
            out += [(".", i), ("*", i)]
        elif isinstance(x, int):
            out += [(".", i)] * x
        else:
            out.append((x, i))
    return out


def oracle(nodes, pat, sat):
    """nodes on some matching path; pat = [(quantifier, predicate no)], sat[pred][node index]"""
    idx = {id(n): i for i, n in enumerate(nodes)}
    ok = lambda n, k: bool(sat[pat[k][1]][idx[id(n)]])  # noqa: E731
    L = len(pat)
    res = set()

    def step(path, k):
        """path matched elements < k, all complete paths from here"""
        if k == L:
            res.update(id(x) for x in path)
            return
        if pat[k][0] == ".":
            for c in path[-1].children:
                if ok(c, k):
                    step(path + [c], k + 1)
        else:
            if not path[-1].children:
                step(path, k + 1)
            for c in path[-1].children:
                run(path, c, k)

    def run(path, n, k):
        """node n is the next candidate of the run matched by element k"""
        if k + 1 < L and ok(n, k + 1):
            step(path, k + 1)
        elif ok(n, k):
            if not n.children:
                if k == L - 1:
                    step(path + [n], k + 1)
                return
            for c in n.children:
                run(path + [n], c, k)
        elif k == L - 1:
            step(path, k + 1)

    for n in nodes:
        if pat[0][0] == "*":
            if L > 1 and ok(n, 1):
                step([n], 2)
            if ok(n, 0):
                step([n], 0)
        elif ok(n, 0):
            step([n], 1)
    return res


def check(case):
    sp = case["sp"]
    rng = gen.rng_for("p13")
    gf, nodes = B.build_gf(sp, rng, tuple(case["index"]))
    idx = {n._hatchet_nid: i for i, n in enumerate(nodes)}
    calls = []

    def pred(i):
        def f(row):
            node = row.name if isinstance(row, pd.Series) else row.index.get_level_values("node")[0]
            calls.append((i, node._hatchet_nid))
            return bool(case["sat"][i][idx[node._hatchet_nid]])
        return f

    q = Query()
    for i, x in enumerate(case["q"]):
        (q.match if i == 0 else q.rel if i % 2 else q.relation)(x, pred(i))
    want = oracle(nodes, expand(case["q"]), case["sat"])
    snap = B.snapshot(gf.graph.roots)
    eng = QueryEngine()
    other = Query().match("*", lambda r: True).rel(".", lambda r: False)
    for rnd in range(2):
        got = eng.apply(q, gf.graph, gf.dataframe)
        if {id(n) for n in got} != want or len(got) != len(want):
            yield "%s: nodes %s, expected %s%s" % (case["q"], sorted(idx[n._hatchet_nid] for n in got), sorted(i for i, n in enumerate(nodes) if id(n) in want),
                                                  " on reuse" if rnd else "")
            return
        eng.apply(other, gf.graph, gf.dataframe)
    if B.snapshot(gf.graph.roots) != snap:
        yield "the graph was changed"
