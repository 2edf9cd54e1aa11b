import math
import numpy as np
import gen
import build as B
import p05
import p07
from pyxbuild import install


def prepare():
    install()


BOUND = "all pairs of DAGs on up to 3 and 2 nodes with frames from {a,b,c}; random pairs of trees and DAGs (distinct sibling frames) of up to 8 nodes, single- and multi-indexed tables with missing values, all operators, operands on one graph"
OPS = ["add", "sub", "mul", "div", "+", "-", "*", "/", "+=", "-=", "*=", "/="]


def cases(seed, tier):
    for n in (1, 2, 3):
        for a in gen.dags(n, ["a", "b", "c"], True):
            for b in gen.dags(2, ["a", "b", "c"], True):
                if True:
                    yield {"kind": "pair", "sp": a, "sp2": b, "ts": n, "op": OPS[n + len(a["r"])], "index": ["node"], "same": 0}
    rng = gen.rng_for(seed, "p12")
    for i in range(6000 if tier == "quick" else 30000):
        n, m = rng.randint(1, 8), rng.randint(1, 8)
        if i % 2:
            labels = gen.rand_frames(rng, rng.randint(2, 4))
            a = gen.rand_tree(rng, n, labels, True)
            b = p07.variants(rng, a, labels) if rng.random() < 0.6 else gen.rand_tree(rng, m, labels, True)
            if not (p07.ok(b) and p07.is_tree(b)):
                b = gen.rand_tree(rng, m, labels, True)
        else:
            pool = ["n%d" % j for j in range(12)]
            a, b = gen.rand_dag(rng, n, ["z"], False), gen.rand_dag(rng, m, ["z"], False)
            # a common node order keeps the union of two graphs over shared names acyclic
            for s in (a, b):
                names = sorted(rng.sample(pool, len(s["f"])))
                s["f"] = [{"name": x, "type": "function"} for x in names]
        yield {"kind": "random", "sp": a, "sp2": b, "ts": rng.randint(0, 9999), "op": rng.choice(OPS), "same": int(i % 7 == 0), "extra": int(i % 5 == 0 and i % 7 != 0),
               "index": rng.choice([["node"], ["node"], ["node", "rank"], ["node", "rank", "thread"]])}


def union_keys(ga, gb):
    """operand node -> number of the node of the united graph it is mapped to (the mapping itself is P07's concern)"""
    if ga is gb:
        k = {id(n): n._hatchet_nid for n in B.reach(ga.roots)}
        return k, dict(k)
    m = {}
    u = ga.union(gb, m)
    for sib in [u.roots] + [n.children for n in B.reach(u.roots)]:
        if len({n.frame for n in sib}) < len(sib):
            return None, None  # equal siblings (operands that are no trees): their order depends on addresses, so two unions may number them differently
    return tuple({id(n): m[id(n)]._hatchet_nid for n in B.reach(g.roots)} for g in (ga, gb))


def tab(gf, keys):
    out = {}
    for ix, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        n, rest = (ix[0], tuple(ix[1:])) if isinstance(ix, tuple) else (ix, ())
        out.setdefault((keys.get(id(n)), rest), []).append(row)
    return out


def add_extra(case, gb, rng):
    """a metric only the right operand has: missing everywhere in the result"""
    if case.get("extra"):
        gb.dataframe["count"] = [float(rng.randint(0, 9)) for _ in range(len(gb.dataframe))]
        gb.exc_metrics = gb.exc_metrics + ["count"]


def app(op, x, y):
    if math.isnan(x) or math.isnan(y):
        return float("nan")
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if y == 0:
        return float("nan") if x == 0 else math.copysign(float("inf"), x)
    return x / y


def check(case):
    sp, sp2 = case["sp"], case["sp2"]
    if not (p07.ok(sp) and p07.ok(sp2)):
        return
    rng = gen.rng_for(case["ts"])
    ga, na = B.build_gf(sp, rng, tuple(case["index"]), nan=0.1, sort=rng.random() < 0.6)
    if case["same"]:
        gb = ga.copy()
        gb.dataframe = gb.dataframe.copy()
        gb.dataframe["time"] = [float(rng.randint(0, 9)) for _ in range(len(gb.dataframe))]
    else:
        gb, nb = B.build_gf(sp2, rng, tuple(case["index"]), nan=0.1, sort=rng.random() < 0.6)
    add_extra(case, gb, rng)
    ka, kb = union_keys(ga.graph, gb.graph)
    if ka is None:
        return
    if len(set(ka.values())) < len(ka) or len(set(kb.values())) < len(kb):
        return  # the union folds nodes of one operand together: outside the property
    ta, tb = tab(ga, ka), tab(gb, kb)
    sa, sb = B.snapshot(ga.graph.roots), B.snapshot(gb.graph.roots)
    da, db = p05.dfsnap(ga.dataframe), p05.dfsnap(gb.dataframe)
    ga0, gb0, dfa, dfb = ga.graph, gb.graph, ga.dataframe, gb.dataframe
    op = {"+": "add", "-": "sub", "*": "mul", "/": "div"}.get(case["op"][0], case["op"])
    inplace = case["op"].endswith("=")
    left = ga
    if case["op"] == "+":
        res = ga + gb
    elif case["op"] == "-":
        res = ga - gb
    elif case["op"] == "*":
        res = ga * gb
    elif case["op"] == "/":
        res = ga / gb
    elif inplace:
        exec("ga %s gb" % case["op"], {}, {"ga": ga, "gb": gb})
        # run on fresh operands to see the object bound afterwards
        return (yield from inplace_check(case, op, ta, tb, gb, sb, db, gb0))
    else:
        res = getattr(ga, case["op"])(gb)
    if ga.graph is not ga0 or gb.graph is not gb0 or ga.dataframe is not dfa or gb.dataframe is not dfb:
        yield "an operand was replaced"
    if B.snapshot(ga0.roots) != sa or B.snapshot(gb0.roots) != sb:
        yield "an operand's graph was changed"
    if p05.dfsnap(dfa) != da:
        yield "the left operand's table was changed"
    if p05.dfsnap(dfb) != db:
        yield "the right operand's table was changed"
    yield from result_errors(case, op, res, ta, tb)
    if not case["same"] and (id(B.reach(res.graph.roots)[0]) in ka or id(B.reach(res.graph.roots)[0]) in kb):
        yield "the result shares nodes with an operand"


def inplace_check(case, op, ta, tb, gb_used, sb, db, gb0):
    # gb_used took part in one in-place operation already: it must be unchanged
    if gb_used.graph is not gb0 or B.snapshot(gb0.roots) != sb or p05.dfsnap(gb_used.dataframe) != db:
        yield "the right operand was changed by %s" % case["op"]
    rng = gen.rng_for(case["ts"])
    ga, na = B.build_gf(case["sp"], rng, tuple(case["index"]), nan=0.1, sort=rng.random() < 0.6)
    if case["same"]:
        gb = ga.copy()
        gb.dataframe = gb.dataframe.copy()
        gb.dataframe["time"] = [float(rng.randint(0, 9)) for _ in range(len(gb.dataframe))]
    else:
        gb, nb = B.build_gf(case["sp2"], rng, tuple(case["index"]), nan=0.1, sort=rng.random() < 0.6)
    add_extra(case, gb, rng)
    loc = {"ga": ga, "gb": gb}
    exec("ga %s gb" % case["op"], {}, loc)
    yield from result_errors(case, op, loc["ga"], ta, tb)
    if loc["ga"] is not ga:
        yield "%s does not store the result in the left operand" % case["op"]


def result_errors(case, op, res, ta, tb):
    kr = {id(n): n._hatchet_nid for n in B.reach(res.graph.roots)}
    tr = tab(res, kr)
    if None in {k[0] for k in tr}:
        yield "a row of the result belongs to no node of its graph"
        return
    if set(tr) != set(ta) | set(tb) or any(len(v) != 1 for v in tr.values()):
        yield "rows of the result are not those of the united graph"
        return
    missing = set(ta) != set(tb)
    for k, (row,) in tr.items():
        for c in ("time", "time (inc)"):
            if k in ta and k in tb:
                x, y = ta[k][0][c], tb[k][0][c]
                w = app(op, x, y)
                if math.isnan(w):
                    w = x
            elif k in ta:
                w = ta[k][0][c]
            else:
                w = float("nan")
            v = row[c]
            if not (v == w or (np.isnan(v) and np.isnan(w)) or abs(v - w) < 1e-9):
                yield "%s %s at %s is %s, expected %s" % (c, case["op"], k, v, w)
        if case.get("extra") and not np.isnan(row["count"]):
            yield "count %s at %s is %s, expected nan" % (op, k, row["count"])
        if row["name"] != (ta.get(k) or tb.get(k))[0]["name"]:
            yield "name at %s is %s" % (k, row["name"])
        mark = row.get("_missing_node")
        want = 0 if k in ta and k in tb else 1 if k in ta else 2
        if (mark is None) != (not missing) or (missing and mark != want):
            yield "marker at %s is %s, expected %s" % (k, mark, want if missing else None)
    if sorted(n._hatchet_nid for n in B.reach(res.graph.roots)) != list(range(len(kr))):
        yield "the result's graph is not numbered"
