import math
import operator
import re
import warnings

import pandas as pd
import gen
import build as B
from hatchet.query import StringQuery, parse_string_dialect
from hatchet.query.engine import QueryEngine
from hatchet.query.errors import InvalidQueryFilter

BOUND = ("random text queries of up to 3 elements and 5 conditions with NOT/AND/OR, every kind of condition on string, number, mixed and missing attributes, depth and "
         "node_id, values with quotes, backslashes, braces and non-ASCII characters; random graphs of up to 6 nodes, single-indexed and multi-indexed in both modes")

NAMES = ["foo", "bar", "foo bar", 'q"q', "it's", "a\\b", "\u00e9t\u00e9", "{x}", "", "tab\tx", "a.b", "FOO", "x AND y", "}{", "\\n"]
OPS = {"=": operator.eq, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
# numbers that differ from one another in their last digits only
FINE = [0.3, 0.1 + 0.2, 2.5000000001, 123456789.12345678, 123456789.12345677, 1 + 2 ** -52]
STR = ["=", "STARTS WITH", "ENDS WITH", "CONTAINS", "=~"]


def quote(v, q='"'):
    """text of a string value (quotes escaped)"""
    return q + v.replace(q, "\\" + q) + q


def cond(rng):
    k = rng.random()
    if k < 0.35:
        prop = rng.choice(["name", "name", "name", "mixed", "time", "missing"]) if rng.random() < 0.4 else "name"
        op = rng.choice(STR)
        val = rng.choice(NAMES) if op != "=~" else rng.choice(["foo", "fo+", "b.*", ".*o", "foo|bar", "a\\.b", "$", "(?i)foo"])
        return ["str", prop, op, val]
    if k < 0.7:
        prop = rng.choice(["time", "time", "count", "depth", "node_id", "name", "missing"]) if rng.random() < 0.6 else "time"
        val = rng.choice([0, 1, 2, 3, 5, -1, -2, 0.5, 2.5, -0.5, 1000] + FINE)
        return ["num", prop, rng.choice(list(OPS)), val]
    if k < 0.8:
        return ["is", rng.choice(["time", "count", "time", "time", "depth", "node_id"] if rng.random() < 0.9 else ["name", "missing"]), rng.choice(["NAN", "NOT NAN", "INF", "NOT INF"])]
    if k < 0.92:
        return ["none", rng.choice(["obj", "name", "time", "depth", "node_id", "missing"]), rng.choice(["NONE", "NOT NONE"])]
    return ["leaf", None, rng.choice(["LEAF", "NOT LEAF"])]


def text(c, name):
    if c[0] == "str":
        v = c[3]
        if "\\'" in v or '\\"' in v or v.endswith("\\"):
            v = "foo"
        q = "'" if '"' in v and "'" not in v else '"'
        return "%s.%s %s %s" % (name, quote(c[1]), c[2], quote(v, q))
    if c[0] == "num":
        return "%s.%s %s %s" % (name, quote(c[1]), c[2], c[3])
    if c[0] == "leaf":
        return "%s IS %s" % (name, c[2])
    return "%s.%s IS %s" % (name, quote(c[1]), c[2])


def cases(seed, tier):
    rng = gen.rng_for(seed, "p16")
    for i in range(4000 if tier == "quick" else 80000):
        n = rng.randint(1, 6)
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], False) if i % 2 else gen.rand_dag(rng, n, ["a", "b", "c"], False)
        k = rng.choice([1, 1, 1, 2, 3])
        els = [[rng.choice([None, ".", "*", "+", 2, 1]), "pqr"[j] if rng.random() < 0.9 else ""] for j in range(k)]
        for e in els:
            if not e[1] and e[0] is None:
                e[0] = "."
        names = [e[1] for e in els if e[1]]
        conds = []
        if names and rng.random() < 0.95:
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
                conds.append([rng.choice(["AND", "OR"]), rng.random() < 0.25, rng.choice(names), cond(rng)])
        idx = ["node"] if i % 3 else ["node", "rank"] if i % 2 else ["node", "rank", "thread"]
        yield {"kind": "single" if len(idx) == 1 else "multi", "sp": sp, "els": els, "conds": conds, "index": idx, "mode": rng.choice(["any", "all"]), "ts": rng.randint(0, 99999)}


class Wrong(Exception):
    pass


def numeric(v):
    return isinstance(v, (int, float)) or hasattr(v, "dtype")


def kind_ok(c, cols, kinds):
    """type requirement of a condition: KeyError (missing), or whether it holds"""
    if c[0] in ("leaf", "none") or c[1] in ("depth", "node_id"):
        if c[0] == "str":
            raise KeyError(c[1])
        return True
    if c[1] not in cols:
        raise KeyError(c[1])
    if c[0] == "str":
        return kinds[c[1]] == "str"
    return kinds[c[1]] == "num"


def truth(c, node, rows, agg):
    if c[0] == "leaf":
        return (len(node.children) == 0) == (c[2] == "LEAF")
    if c[1] == "depth":
        if c[0] == "num" and c[2] == "=" and c[3] == -1:
            return len(node.children) == 0
        vals = [node._depth]
    elif c[1] == "node_id":
        vals = [node._hatchet_nid]
    else:
        vals = [r[c[1]] for r in rows]
    if c[0] == "none":
        return agg([(v is None) == (c[2] == "NONE") for v in vals])
    if c[0] == "is":
        t = {"NAN": lambda v: math.isnan(v), "NOT NAN": lambda v: not math.isnan(v), "INF": lambda v: math.isinf(v), "NOT INF": lambda v: not math.isinf(v)}[c[2]]
        return agg([t(v) for v in vals])
    if c[0] == "num":
        return agg([bool(OPS[c[2]](v, c[3])) for v in vals])
    v0 = c[3]
    if "\\'" in v0 or '\\"' in v0 or v0.endswith("\\"):
        v0 = "foo"
    t = {"=": lambda v: v == v0, "STARTS WITH": lambda v: v[:len(v0)] == v0, "ENDS WITH": lambda v: len(v) >= len(v0) and v[len(v) - len(v0):] == v0,
         "CONTAINS": lambda v: v.find(v0) >= 0, "=~": lambda v: re.compile(v0).match(v) is not None}[c[2]]
    return agg([t(v) for v in vals])


def element(conds, node, rows, agg, cols, kinds):
    """truth of the and/or/not combination for one element, or 'wrong'"""
    if not conds:
        return True
    try:
        for _, _, _, c in conds:
            if not kind_ok(c, cols, kinds):
                return "wrong"

        def atom(x):
            if x[3][0] == "none" and x[3][1] not in cols and x[3][1] not in ("depth", "node_id"):
                raise KeyError(x[3][1])
            r = truth(x[3], node, rows, agg)
            return not r if x[1] else r
        groups = [[conds[0]]]
        for x in conds[1:]:
            if x[0] == "OR":
                groups.append([x])
            else:
                groups[-1].append(x)
        for g in groups:
            if all(atom(x) for x in g):
                return True
        return False
    except KeyError:
        return False


def check(case):
    rng = gen.rng_for(case["ts"])
    idx = tuple(case["index"])
    multi = len(idx) > 1
    gf, nodes = B.build_gf(case["sp"], rng, idx)
    df = gf.dataframe
    df["name"] = [rng.choice(NAMES) for _ in range(len(df))]
    df["time"] = [rng.choice([0.0, 1.0, 2.5, -0.5, 1e3, 5.0, float("nan"), float("inf"), float("-inf")] + FINE) for _ in range(len(df))]
    df["count"] = [rng.choice([0, 1, 2, 3, -1]) for _ in range(len(df))]
    df["obj"] = pd.Series([rng.choice([None, "x"]) for _ in range(len(df))], index=df.index, dtype=object)
    kinds = {"name": "str", "time": "num", "count": "num", "obj": None}
    els, conds = case["els"], case["conds"]

    def el(e):
        w = None if e[0] is None else ('"%s"' % e[0] if isinstance(e[0], str) else str(e[0]))
        return "(%s)" % ", ".join(x for x in (w, e[1]) if x)

    txt = "MATCH " + "->".join(el(e) for e in els)
    if conds:
        txt += " WHERE "
        for i, (conn, neg, name, c) in enumerate(conds):
            txt += ("" if i == 0 else " %s " % conn) + ("NOT " if neg else "") + text(c, name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q = StringQuery(txt, case["mode"] if multi else "off")
        q2 = parse_string_dialect(txt, case["mode"] if multi else "off")
    want_pat = []
    for e in els:
        w = e[0] if e[0] is not None else "."
        want_pat += {"+": [(".", e), ("*", e)]}.get(w, [(".", e)] * w if isinstance(w, int) else [(w, e)])
    for qq in (q, q2):
        if [a for a, _ in qq.query_pattern] != [a for a, _ in want_pat]:
            yield "%s has pattern %s, expected %s" % (txt, [a for a, _ in qq.query_pattern], [a for a, _ in want_pat])
            return
    agg = {"any": any, "all": all}[case["mode"]] if multi else all
    for n in nodes:
        row = pd.concat([df.loc[n]], keys=[n], names=["node"]) if multi else df.loc[n]
        sub = df.loc[[n]].values.tolist() if multi else [list(df.loc[n])]
        rows = [dict(zip(df.columns, r)) for r in sub]
        for qq, how in ((q, "text query"), (q2, "parsed dialect")):
            for (_, pred), (_, e) in zip(qq.query_pattern, want_pat):
                mine = [c for c in conds if e[1] and c[2] == e[1]]
                want = element(mine, n, rows, agg, list(df.columns), kinds)
                if any(c[3][0] == "none" and c[3][1] == "obj" for c in mine) is None:
                    continue
                try:
                    got = pred(row)
                except InvalidQueryFilter:
                    got = "wrong"
                if isinstance(want, str) or isinstance(got, str):
                    bad = not (isinstance(want, str) and isinstance(got, str))
                else:
                    bad = bool(got) != want
                if bad:
                    yield "%s (%s, %s): element %s on node %d with %s gives %s, expected %s" % (txt, how, case["mode"] if multi else "single", e, n._hatchet_nid, rows, got, want)
                    return
