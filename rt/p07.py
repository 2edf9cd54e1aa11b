import gen
import build as B
from hatchet.graph import Graph

BOUND = "all pairs of DAGs on up to 3 nodes with frames from {a,b,c} and distinct sibling frames; random pairs of trees and DAGs of up to 9 nodes"


def variants(rng, sp, labels):
    b = {"f": [dict(x) for x in sp["f"]], "c": [list(x) for x in sp["c"]], "r": list(sp["r"])}
    n = len(b["f"])
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(["f", "e", "d", "n"])
        i = rng.randrange(n)
        if k == "f":
            b["f"][i] = rng.choice(labels)
        elif k == "e":
            alt = [x for x in range(i + 1, n) if x not in b["c"][i] and x not in b["r"]]
            if alt:
                b["c"][i].insert(0, rng.choice(alt))
        elif k == "d" and b["c"][i]:
            j = b["c"][i].pop()
            if not any(j in c for c in b["c"]):
                b["r"].append(j)
        elif k == "n":
            b["f"].append(rng.choice(labels))
            b["c"].append([])
            b["c"][i].append(n)
            n += 1
    return b


def ok(sp):
    key = lambda i: repr(sorted(sp["f"][i].items()))  # noqa: E731
    return bool(sp["r"]) and all(len({key(i) for i in g}) == len(g) for g in sp["c"] + [sp["r"]])


def cases(seed, tier):
    sm = []
    for n in (1, 2, 3):
        sm += list(gen.dags(n, ["a", "b", "c"] if n < 3 else ["a", "b"], True))
    for a in sm:
        for b in sm:
            yield {"kind": "pair", "sp": a, "sp2": b}
    rng = gen.rng_for(seed, "p07")
    for i in range(12000 if tier == "quick" else 300000):
        labels = gen.rand_frames(rng, rng.randint(2, 5), True)
        mk = (lambda n: gen.rand_tree(rng, n, labels, True)) if i % 2 else (lambda n: gen.rand_dag(rng, n, labels, True))
        a = mk(rng.randint(1, 9))
        b = variants(rng, a, labels) if rng.random() < 0.7 else mk(rng.randint(1, 9))
        yield {"kind": "trees" if i % 2 else "dags", "sp": a, "sp2": b}


def is_tree(sp):
    cnt = [0] * len(sp["f"])
    for r in sp["r"]:
        cnt[r] += 1
    for c in sp["c"]:
        for x in c:
            cnt[x] += 1
    return all(v == 1 for v in cnt)


def check(case):
    if not ok(case["sp"]) or not ok(case["sp2"]):
        return
    ga, na = B.build_graph(case["sp"])
    gb, nb = B.build_graph(case["sp2"])
    sa, sb = B.snapshot(ga.roots), B.snapshot(gb.roots)
    m = {}
    u = ga.union(gb, m)
    if B.snapshot(ga.roots) != sa or B.snapshot(gb.roots) != sb:
        yield "union changed an operand"
    un = B.reach(u.roots)
    uid = {id(x) for x in un}
    old = B.reach(ga.roots) + B.reach(gb.roots)
    if uid & {id(x) for x in old}:
        yield "the union shares nodes with an operand"
    for o in old:
        if id(o) not in m:
            yield "node %s is not mapped" % o
            return
        t = m[id(o)]
        if id(t) not in uid:
            yield "node %s is mapped outside the union" % o
        if not t.frame.attrs == o.frame.attrs or t.frame is o.frame or t.frame.attrs is o.frame.attrs:
            yield "node %s is mapped to frame %s" % (o, t)
    if {id(t) for t in m.values()} != uid:
        yield "a node of the union comes from no node of the operands"
    edges = {(id(m[id(o)]), id(m[id(c)])) for o in old for c in o.children}
    uedges = {(id(x), id(c)) for x in un for c in x.children}
    if edges - uedges:
        yield "%d edges of the operands are lost" % len(edges - uedges)
    if uedges - edges:
        yield "%d edges of the union come from no operand" % len(uedges - edges)
    ur = [id(r) for r in u.roots]
    wr = {id(m[id(r)]) for g in (ga, gb) for r in g.roots}
    if set(ur) != wr or len(set(ur)) != len(ur):
        yield "roots of the union are not the operands' roots, each once"
    yield from B.mirror_errors(u.roots)
    yield from B.dup_edges(u.roots)
    if sorted(x._hatchet_nid for x in un) != list(range(len(un))):
        yield "the union is not numbered"
    if is_tree(case["sp"]) and is_tree(case["sp2"]):
        want = B.paths_of(ga.roots) | B.paths_of(gb.roots)
        if B.paths_of(u.roots) != want or len(un) != len(want):
            yield "call paths of the union are not the union of the call paths"
    if not (ga.union(ga) == ga) or not (u == ga.union(gb)):
        yield "union with itself differs, or union is not repeatable"
