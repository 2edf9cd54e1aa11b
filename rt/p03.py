import gen
from hatchet.frame import Frame
from hatchet.node import Node

BOUND = "random pairs and triples of attribute dictionaries of up to 5 attributes over small value sets, all insertion orders sampled"
KEYS = ["name", "type", "line", "file", "module", "aa"]
VALS = {"name": ["a", "b", "", "A", "ab", "é"], "type": ["function", "loop", "None", ""], "line": [0, 1, 2, -1, 10, 2.0],
        "file": ["x.c", "y.c", ""], "module": ["m", "n"], "aa": [0, 1, 3]}


def cases(seed, tier):
    rng = gen.rng_for(seed, "p03")
    for _ in range(60000 if tier == "quick" else 200000):
        ks = rng.sample(KEYS, rng.randint(1, 5))
        ds = []
        for _ in range(3):
            k2 = list(ks)
            if rng.random() < 0.3:
                k2 = rng.sample(KEYS, rng.randint(1, 5))
            rng.shuffle(k2)
            ds.append([[k, rng.choice(VALS[k][: rng.randint(1, 6)])] for k in k2])
        yield {"kind": "triple", "d": ds, "split": rng.randint(0, 2), "nid": [rng.randint(0, 4) for _ in range(3)]}


def canon(pairs):
    d = dict((k, v) for k, v in pairs)
    d.setdefault("type", "None")
    return d


def check(case):
    fs, cs = [], []
    for pairs in case["d"]:
        d = dict((k, v) for k, v in pairs)
        if case["split"] == 0:
            f = Frame(dict(d))
        elif case["split"] == 1:
            f = Frame(**d)
        else:
            items = list(d.items())
            if len(items) > 1:
                base = dict(items)
                base[items[-1][0]] = "overridden"
                f = Frame(base, **{items[-1][0]: items[-1][1]})
            else:
                f = Frame(dict(d))
        fs.append(f)
        cs.append(canon(pairs))
    tup = [tuple(sorted(c.items())) for c in cs]
    for i in range(3):
        f, c = fs[i], cs[i]
        if f.attrs != c:
            yield "attributes are %s, expected %s" % (f.attrs, c)
            return
        if hash(f) != hash(f) or not f == f or f != f or f < f or f > f or not f <= f or not f >= f:
            yield "%s is not reflexive" % f
        for j in range(3):
            g = fs[j]
            eq, ne, lt, gt, le, ge = f == g, f != g, f < g, f > g, f <= g, f >= g
            weq, wlt = tup[i] == tup[j], tup[i] < tup[j]
            if bool(eq) != weq or weq != (cs[i] == cs[j]):
                yield "%s == %s is %s" % (f, g, eq)
            if (bool(ne), bool(lt), bool(gt), bool(le), bool(ge)) != (not weq, wlt, not weq and not wlt, weq or wlt, not wlt):
                yield "order of %s and %s: ne=%s lt=%s gt=%s le=%s ge=%s" % (f, g, ne, lt, gt, le, ge)
            if weq and hash(f) != hash(g):
                yield "equal frames %s hash differently" % f
        h = f.copy()
        if not h == f or hash(h) != hash(f) or h is f or h.attrs is f.attrs:
            yield "copy of %s is not an independent equal frame" % f
        was = dict(f.attrs)
        h.attrs["zz"] = 1
        if f.attrs != was:
            yield "changing a copied frame changes the original"
        for k in KEYS:
            if f.get(k) != c.get(k) or f.get(k, 7) != c.get(k, 7):
                yield "get(%r) is %r" % (k, f.get(k))
            if f.values(k) != c.get(k):
                yield "values(%r) is %r" % (k, f.values(k))
        for sel in (["name", "line"], ("type", "name", "file"), [], KEYS):
            if f.values(sel) != tuple(c.get(k) for k in sel):
                yield "values(%r) is %r" % (sel, f.values(sel))
        for k in c:
            if f[k] != c[k]:
                yield "frame[%r] is %r" % (k, f[k])
    ns = [Node(f, hnid=k) for f, k in zip(fs, case["nid"])]
    for a in ns:
        for b in ns:
            x, y = a._hatchet_nid, b._hatchet_nid
            if (a == b, a != b, a < b, a > b, a <= b, a >= b) != (x == y, x != y, x < y, x > y, x <= y, x >= y):
                yield "nodes numbered %d and %d compare wrongly" % (x, y)
            if x == y and hash(a) != hash(b):
                yield "equal nodes hash differently"
        c = a.copy()
        if c.frame is a.frame or not c.frame == a.frame or c.parents or c.children:
            yield "node copy is not a fresh node with an equal frame"
    for bad in (None, {}):
        try:
            Frame(bad)
            yield "a frame without attributes is accepted"
        except ValueError:
            pass
