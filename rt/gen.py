"""Input generators shared by the bounded runtime-contract checks.

A *graph spec* is plain data: {"f": [frame attrs per node], "c": [[child index, ...] per node],
"r": [root index, ...]} with edges from lower to higher index (acyclic) and parents[i] derived
in (parent index, position) order.  Plain data makes every case serialisable for replay.
"""
import itertools
import random


def spec_parents(sp):
    ps = [[] for _ in sp["f"]]
    for i, ch in enumerate(sp["c"]):
        for c in ch:
            ps[c].append(i)
    return ps


def mk(labels, children, roots=None):
    n = len(labels)
    if roots is None:
        has = {c for ch in children for c in ch}
        roots = [i for i in range(n) if i not in has]
    f = [l if isinstance(l, dict) else {"name": l, "type": "function"} for l in labels]
    return {"f": f, "c": [list(x) for x in children], "r": list(roots)}


def forests(n, labels, unique_siblings=True):
    """All ordered forests on n nodes (preorder numbered) with all labelings."""
    # parent vector: parent[i] in ancestors-path of i-1 (preorder property), -1 root
    def rec(i, par):
        if i == n:
            yield list(par)
            return
        # candidates: -1, or node on the rightmost path
        cands = [-1]
        j = i - 1
        while j != -1 and i > 0:
            cands.append(j)
            j = par[j]
        if i == 0:
            cands = [-1]
        for c in cands:
            par.append(c)
            yield from rec(i + 1, par)
            par.pop()

    for par in rec(0, []):
        ch = [[] for _ in range(n)]
        roots = []
        for i, p in enumerate(par):
            (roots if p == -1 else ch[p]).append(i)
        for labs in itertools.product(labels, repeat=n):
            if unique_siblings:
                ok = all(len({labs[x] for x in g}) == len(g) for g in ch + [roots])
                if not ok:
                    continue
            yield mk(labs, ch, roots)


def dags(n, labels, unique_siblings=True, connected=True):
    """All DAGs on n nodes, edges i<j, with all labelings (labels from a list)."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        ch = [[] for _ in range(n)]
        for b, (i, j) in zip(bits, pairs):
            if b:
                ch[i].append(j)
        has = {c for x in ch for c in x}
        roots = [i for i in range(n) if i not in has]
        for labs in itertools.product(labels, repeat=n):
            if unique_siblings:
                if not all(len({labs[x] for x in g}) == len(g) for g in ch + [roots]):
                    continue
            yield mk(labs, ch, roots)


def rand_tree(rng, n, labels, unique_siblings=True, nroots=None, shape=None):
    shape = shape or rng.choice(["any", "deep", "wide"])
    ch = [[] for _ in range(n)]
    par = [-1] * n
    roots = []
    nroots = nroots or (1 if rng.random() < 0.6 else rng.randint(1, 3))
    for i in range(n):
        if i < nroots:
            roots.append(i)
            continue
        if shape == "deep":
            p = rng.randint(max(0, i - 3), i - 1)
        elif shape == "wide":
            p = rng.randint(0, max(0, (i - 1) // 3))
        else:
            p = rng.randint(0, i - 1)
        par[i] = p
        ch[p].append(i)
    labs = _labels(rng, ch, roots, labels, unique_siblings)
    return _shuffle(rng, mk(labs, ch, roots))


def rand_dag(rng, n, labels, unique_siblings=True, extra=None, nroots=None):
    sp = rand_tree(rng, n, labels, False, nroots)
    # renumber not needed for acyclicity: edges parent index < child index is kept by rand_tree
    ch = sp["c"]
    extra = extra if extra is not None else rng.randint(1, max(1, n // 2))
    for _ in range(extra):
        i = rng.randint(0, n - 1)
        j = rng.randint(0, n - 1)
        if i == j:
            continue
        a, b = (i, j) if i < j else (j, i)
        if b in sp["r"] or b in ch[a]:
            continue
        ch[a].insert(rng.randint(0, len(ch[a])), b)
    labs = _labels(rng, ch, sp["r"], labels, unique_siblings)
    return mk(labs, ch, sp["r"])


def _labels(rng, ch, roots, labels, unique):
    n = len(ch)
    labs = [None] * n
    groups = [g for g in ch + [roots] if g]
    memb = [[] for _ in range(n)]
    for gi, g in enumerate(groups):
        for x in g:
            memb[x].append(gi)
    k = 0
    for i in range(n):
        if not unique:
            labs[i] = rng.choice(labels)
            continue
        used = {repr(labs[x]) for gi in memb[i] for x in groups[gi] if labs[x] is not None}
        cand = [l for l in labels if repr(l) not in used]
        if cand:
            labs[i] = rng.choice(cand)
        else:
            labs[i] = "u%d" % k
            k += 1
    return labs


def _shuffle(rng, sp):
    for c in sp["c"]:
        rng.shuffle(c)
    rng.shuffle(sp["r"])
    return sp


def rand_frames(rng, n, dup=False):
    """A palette of frame attribute dicts, same keys with comparable values (dup: frames may differ in attributes other than the name only)."""
    out = []
    if dup and rng.random() < 0.3:
        for i in range(n):
            out.append({"name": rng.choice(["a", "b"]), "type": rng.choice(["function", "loop"]), "line": i})
        rng.shuffle(out)
        return out
    kind = rng.choice(["name", "nametype", "line", "file"])
    for i in range(n):
        nm = rng.choice(["a", "b", "foo", "bar", "Foo", "foo bar", "<x>", "a1", "A", ""]) + str(i)
        d = {"name": nm, "type": "function"}
        if kind == "line":
            d["line"] = rng.randint(0, 50)
        if kind == "file":
            d["file"] = rng.choice(["x.c", "y.c"])
        out.append(d)
    return out


def rng_for(seed, *salt):
    return random.Random("%s|%s" % (seed, "|".join(map(str, salt))))
