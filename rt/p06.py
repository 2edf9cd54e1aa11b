import random
import gen
import build as B
from hatchet.graph import Graph

BOUND = "all pairs of DAGs on up to 3 nodes with frames from {a,b} and distinct sibling frames; random graphs of up to 10 nodes against a shuffled twin and against mutants of it"


def small():
    out = []
    for n in (1, 2, 3):
        out += list(gen.dags(n, ["a", "b"], True))
    return out


def cases(seed, tier):
    sm = small()
    for i, a in enumerate(sm):
        for b in sm:
            if len(a["f"]) == len(b["f"]):
                yield {"kind": "pair", "sp": a, "sp2": b, "sh": i}
    rng = gen.rng_for(seed, "p06")
    for i in range(20000 if tier == "quick" else 400000):
        n = rng.randint(2, 10)
        labels = gen.rand_frames(rng, rng.randint(2, 5), True)
        a = gen.rand_tree(rng, n, labels, True) if i % 3 == 0 else gen.rand_dag(rng, n, labels, True)
        b = {"f": [dict(x) for x in a["f"]], "c": [list(x) for x in a["c"]], "r": list(a["r"])}
        k = rng.choice(["same", "frame", "edge", "addedge", "deledge", "root", "split"])
        if k == "frame":
            b["f"][rng.randrange(n)] = dict(rng.choice(labels), name="other")
        elif k == "edge":  # move an edge to another target with the same frame
            es = [(i, j) for i in range(n) for j in b["c"][i]]
            if es:
                i_, j = rng.choice(es)
                alt = [x for x in range(i_ + 1, n) if x != j and b["f"][x] == b["f"][j] and x not in b["c"][i_]] or [x for x in range(i_ + 1, n) if x not in b["c"][i_]]
                if alt:
                    b["c"][i_][b["c"][i_].index(j)] = rng.choice(alt)
        elif k == "addedge":
            i_ = rng.randrange(n)
            alt = [x for x in range(i_ + 1, n) if x not in b["c"][i_]]
            if alt:
                b["c"][i_].append(rng.choice(alt))
        elif k == "deledge":
            es = [(i, j) for i in range(n) for j in b["c"][i]]
            if es:
                i_, j = rng.choice(es)
                b["c"][i_].remove(j)
        elif k == "root":
            x = rng.randrange(n)
            if x in b["r"]:
                if len(b["r"]) > 1:
                    b["r"].remove(x)
            else:
                b["r"].append(x)
        elif k == "split":  # a shared node becomes two
            sh = [j for j in range(n) if sum(j in c for c in b["c"]) > 1]
            if sh:
                j = rng.choice(sh)
                ps = [i for i in range(n) if j in b["c"][i]]
                b["f"].append(dict(b["f"][j]))
                b["c"].append(list(b["c"][j]))
                b["c"][ps[0]][b["c"][ps[0]].index(j)] = n
        yield {"kind": k, "sp": a, "sp2": b, "sh": rng.randint(0, 10 ** 6)}


def shuffled(sp, seed):
    """The same graph with its nodes, children and roots listed in another order."""
    rng = random.Random(seed)
    n = len(sp["f"])
    perm = list(range(n))
    rng.shuffle(perm)
    inv = {o: i for i, o in enumerate(perm)}
    f = [sp["f"][o] for o in perm]
    c = [[inv[x] for x in rng.sample(sp["c"][o], len(sp["c"][o]))] for o in perm]
    r = [inv[x] for x in rng.sample(sp["r"], len(sp["r"]))]
    return {"f": f, "c": c, "r": r}


def ok(sp):
    """distinct frames among siblings and roots, every node reachable, acyclic"""
    key = lambda i: repr(sorted(sp["f"][i].items()))  # noqa: E731
    for g in sp["c"] + [sp["r"]]:
        if len({key(i) for i in g}) != len(g):
            return False
    return bool(sp["r"])


def canonical(roots):
    """Deterministic walk by frames with back references: equal iff isomorphic (distinct sibling frames)."""
    num, out = {}, []

    def rec(n):
        if id(n) in num:
            out.append(num[id(n)])
            return
        num[id(n)] = len(num)
        out.append(("n", B.fkey(n), len(n.children)))
        for c in sorted(n.children, key=B.fkey):
            rec(c)

    out.append(len(roots))
    for r in sorted(roots, key=B.fkey):
        rec(r)
    return out


def check(case):
    a, b = case["sp"], case["sp2"]
    if not ok(a) or not ok(b):
        return
    b2 = shuffled(b, case["sh"])
    try:
        ga, na = B.build_graph(a)
        gb, nb = B.build_graph(b)
        gb2, _ = B.build_graph(b2)
    except RecursionError:
        return
    sa, sb = B.snapshot(ga.roots), B.snapshot(gb.roots)
    want = canonical(ga.roots) == canonical(gb.roots)
    for x, y, w, what in ((ga, gb, want, "a == b"), (gb, ga, want, "b == a"), (ga, gb2, want, "a == shuffled b"), (gb2, ga, want, "shuffled b == a"),
                          (gb, gb2, True, "b == shuffled b"), (ga, ga, True, "a == a"), (ga, ga.copy(), True, "a == a.copy()"), (ga.copy(), ga, True, "a.copy() == a")):
        if bool(x == y) != w:
            yield "%s is %s, expected %s" % (what, x == y, w)
        if bool(x != y) == w:
            yield "%s: != is %s, expected %s" % (what, x != y, not w)
    if B.snapshot(ga.roots) != sa or B.snapshot(gb.roots) != sb:
        yield "the comparison changed a graph"
