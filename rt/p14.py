import gen
import build as B
from hatchet.query import (Query, ConjunctionQuery, DisjunctionQuery, ExclusiveDisjunctionQuery, NegationQuery,
                           ObjectQuery, StringQuery, parse_string_dialect, QueryMatcher, AndQuery, OrQuery, XorQuery, NotQuery, combine_via_conjunction)
import hatchet.query as HQ
from hatchet.query.engine import QueryEngine
from hatchet.query.errors import InvalidQueryPath, BadNumberNaryQueryArgs

BOUND = "random combinations of depth up to 4 of random base queries (object, text, builder, old-style) on random graphs of up to 9 nodes; all quantifiers in built patterns"


def rand_expr(rng, depth):
    if depth == 0 or rng.random() < 0.3:
        return ["leaf", rng.randint(0, 5), rng.choice(["obj", "raw", "str", "rawstr", "build", "old"])]
    k = rng.choice(["and", "or", "xor", "not"])
    n = 1 if k == "not" else rng.choice([2, 2, 3, 4])
    return [k, rng.choice(["cls", "op", "old", "tuple"]), [rand_expr(rng, depth - 1) for _ in range(n)]]


def cases(seed, tier):
    rng = gen.rng_for(seed, "p14")
    for i in range(4000 if tier == "quick" else 100000):
        n = rng.randint(1, 9)
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], False) if i % 2 else gen.rand_dag(rng, n, ["a", "b", "c"], False)
        yield {"kind": "expr", "sp": sp, "ts": rng.randint(0, 9999), "e": rand_expr(rng, rng.randint(1, 4))}
        if i % 4 == 0:
            yield {"kind": "braces", "sp": sp, "ts": rng.randint(0, 9999), "ops": [rng.choice(["AND", "OR", "XOR"]) for _ in range(rng.randint(1, 3))],
                   "ls": [rng.randint(0, 5) for _ in range(4)], "form": rng.choice(["match", "where"])}
        if i % 4 == 1:
            yield {"kind": "pattern", "sp": sp, "ts": 0, "q": [rng.choice([".", "*", "+", 0, 1, 2, 3, 5]) for _ in range(rng.randint(1, 6))]}


NAMES = ["a", "b", "c"]


def base(i, form):
    """base query i in one of its forms, with the plain predicate it stands for"""
    if i < 3:
        return {"obj": lambda: ObjectQuery([{"name": NAMES[i]}]), "raw": lambda: [{"name": NAMES[i]}],
                "str": lambda: StringQuery('MATCH (p) WHERE p."name" = "%s"' % NAMES[i]), "rawstr": lambda: 'MATCH (p) WHERE p."name" = "%s"' % NAMES[i],
                "build": lambda: Query().match(".", lambda r: r["name"] == NAMES[i]), "old": lambda: QueryMatcher([{"name": NAMES[i]}])}[form]()
    t = [3, 8, 14][i - 3]
    return {"obj": lambda: ObjectQuery([{"time": "> %d" % t}]), "raw": lambda: [{"time": "> %d" % t}],
            "str": lambda: StringQuery('MATCH (p) WHERE p."time" > %d' % t), "rawstr": lambda: 'MATCH (p) WHERE p."time" > %d' % t,
            "build": lambda: Query().match(".", lambda r: r["time"] > t), "old": lambda: QueryMatcher([{"time": "> %d" % t}])}[form]()


def truth(i, name, time):
    return name == NAMES[i] if i < 3 else time > [3, 8, 14][i - 3]


def build_old(e):
    if e[0] == "leaf":
        return base(e[1], {"build": "old", "obj": "raw", "str": "rawstr"}.get(e[2], e[2]))
    subs = [build_old(x) for x in e[2]]
    cls = {"and": AndQuery, "or": OrQuery, "xor": XorQuery, "not": NotQuery}[e[0]]
    if e[1] == "op" and all(isinstance(s, HQ.compat.AbstractQuery) for s in subs):
        if e[0] == "not":
            return ~subs[0]
        r = subs[0]
        for s in subs[1:]:
            r = r & s if e[0] == "and" else r | s if e[0] == "or" else r ^ s
        return r
    return cls(*subs)


def build(e):
    if e[0] == "leaf":
        return base(e[1], {"old": "obj"}.get(e[2], e[2]))
    subs = [build(x) for x in e[2]]
    cls = {"and": ConjunctionQuery, "or": DisjunctionQuery, "xor": ExclusiveDisjunctionQuery, "not": NegationQuery}[e[0]]
    if e[1] == "op" and e[0] != "not" and not isinstance(subs[0], (list, str)):
        r = subs[0]
        for s in subs[1:]:
            r = r & s if e[0] == "and" else r | s if e[0] == "or" else r ^ s
        return r
    if e[1] == "tuple":
        return cls(tuple(subs))
    return cls(*subs)


def value(e, sets, allset):
    if e[0] == "leaf":
        return sets[e[1]]
    vs = [value(x, sets, allset) for x in e[2]]
    if e[0] == "not":
        return allset - vs[0]
    r = vs[0]
    for v in vs[1:]:
        r = r & v if e[0] == "and" else r | v if e[0] == "or" else r ^ v
    return r


def describe(q, seen=None):
    if isinstance(q, Query):
        return ("q", tuple((a, id(p)) for a, p in q.query_pattern))
    if hasattr(q, "subqueries"):
        return (type(q).__name__, tuple(describe(s) for s in q.subqueries))
    return repr(q)


def check(case):
    rng = gen.rng_for(case["ts"])
    gf, nodes = B.build_gf(case["sp"], rng)
    if case["kind"] == "pattern":
        q, want = Query(), []
        ps = []
        for i, x in enumerate(case["q"]):
            p = (lambda i: lambda r: i)(i)
            ps.append(p)
            r = (q.match if i == 0 else q.rel if i % 2 else q.relation)(x, p)
            if r is not q:
                yield "the builder does not return the query"
            want += {"+": [(".", p), ("*", p)]}.get(x, [(".", p)] * x if isinstance(x, int) else [(x, p)])
            if len(q.query_pattern) == 0 and i + 1 < len(case["q"]):
                return
        if q.query_pattern != want or len(q) != len(want) or list(q) != want:
            yield "pattern of %s is wrong" % case["q"]
        o = ObjectQuery([(x, {}) if i % 2 else x for i, x in enumerate(case["q"])])
        if [a for a, _ in o.query_pattern] != [a for a, _ in want]:
            yield "pattern of the object form of %s is wrong" % case["q"]
        q.match("*")
        if [a for a, _ in q.query_pattern] != ["*"]:
            yield "match does not start a new pattern"
        try:
            Query().rel(".")
            yield "rel without match is accepted"
        except InvalidQueryPath:
            pass
        return
    sets = [{id(n) for n in nodes if truth(i, n.frame["name"], gf.dataframe.loc[n, "time"])} for i in range(6)]
    alls = {id(n) for n in nodes}
    if case["kind"] == "braces":
        cond = lambda i: 'p."name" = "%s"' % NAMES[i] if i < 3 else 'p."time" > %d' % [3, 8, 14][i - 3]  # noqa: E731
        ls = case["ls"][: len(case["ops"]) + 1]
        if case["form"] == "match":
            parts = ["{MATCH (p) WHERE %s}" % cond(i) for i in ls]
        else:
            parts = ["{%s}" % cond(i) for i in ls]
        txt = parts[0]
        want = sets[ls[0]]
        for op, p, i in zip(case["ops"], parts[1:], ls[1:]):
            txt += " %s %s" % (op, p)
            want = {"AND": want & sets[i], "OR": want | sets[i], "XOR": want ^ sets[i]}[op]
        if case["form"] == "where":
            txt = "MATCH (p) WHERE " + txt
        got = QueryEngine().apply(parse_string_dialect(txt), gf.graph, gf.dataframe)
        if {id(n) for n in got} != want or len(got) != len(want):
            yield "%s selects %d nodes, expected %d" % (txt, len(got), len(want))
        return
    e = case["e"]
    want = value(e, sets, alls)
    for how, b in (("new", build), ("old", build_old)):
        q = b(e)
        if isinstance(q, list):
            q = ObjectQuery(q)
        if isinstance(q, str):
            q = parse_string_dialect(q)
        before = describe(q)
        if isinstance(q, HQ.compat.AbstractQuery):
            got = q.apply(gf)
            got2 = QueryEngine().apply(q._get_new_query(), gf.graph, gf.dataframe)
        else:
            got = QueryEngine().apply(q, gf.graph, gf.dataframe)
            comb = q & ObjectQuery([{"name": "a"}])
            comb2 = q | comb
            if {id(n) for n in QueryEngine().apply(comb2, gf.graph, gf.dataframe)} != want:
                yield "q | (q & x) is not q"
            got2 = QueryEngine().apply(q, gf.graph, gf.dataframe)
        for g in (got, got2):
            if {id(n) for n in g} != want or len(g) != len(want):
                yield "%s (%s) selects %d nodes, expected %d" % (e, how, len(g), len(want))
                return
        if describe(q) != before:
            yield "applying or combining changed the query"
    for cls in (ConjunctionQuery, DisjunctionQuery, ExclusiveDisjunctionQuery):
        try:
            cls(ObjectQuery([{"name": "a"}]))
            yield "%s with one part is accepted" % cls.__name__
        except BadNumberNaryQueryArgs:
            pass
