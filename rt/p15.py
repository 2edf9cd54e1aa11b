import ast
import operator
import re

import numpy as np
import pandas as pd
import gen
import build as B
from hatchet.query import ObjectQuery
from hatchet.query.engine import QueryEngine
from hatchet.query.errors import InvalidQueryFilter, MultiIndexModeMismatch

BOUND = ("random filters of up to 4 entries (comparison texts, numbers, patterns, lists, wrong types, missing attributes, depth, node_id) over random graphs "
         "of up to 7 nodes with finite, NaN, infinite, negative and integer metrics; single-indexed, and multi-indexed with up to 3 rows per node in both modes")

OPS = {"<": operator.lt, ">": operator.gt, "==": operator.eq, ">=": operator.ge, "<=": operator.le, "!=": operator.ne}
NAMES = ["foo", "bar", "foo bar", "a.b", "a+b", "Foo", "", "foo\nbar", "x|y", "abc"]
PATS = ["foo", "fo+", "foo|bar", "f", ".*", ".*o", "a.b", r"a\.b", r"a\+b", "(?i)foo", "foo|foo bar", "^foo$", "[a-z]*", "x|y", r"x\|y", "", "foo.*", "(?s)foo.*"]


# numbers that differ from one another in their last digits only
FINE = [0.3, 0.1 + 0.2, 1e-7, 1.0000001e-7, 2.5000000001, 123456789.123456789, 123456789.12345677, 1 + 2 ** -52, 5e-324, 1e300]
FINE_INT = [2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1]


def num(rng):
    if rng.random() < 0.2:
        return rng.choice(FINE)
    return rng.choice([0, 1, 2, 3, -1, -2, 5, 0.5, -0.5, 2.5, 1e3, -3.25, 10, 7])


def cond(rng, key):
    if key == "name" or key == "tag":
        return rng.choice(PATS) if rng.random() < 0.93 else num(rng)
    r = rng.random()
    n = rng.choice(FINE_INT) if key == "count" and rng.random() < 0.15 else num(rng)
    if r < 0.6:
        return "%s%s%r" % (rng.choice(list(OPS)), rng.choice([" ", "", "  "]), n)
    if r < 0.93:
        return n
    return rng.choice(["foo", "3", "= 3", None])


def entry(rng):
    key = rng.choice(["name", "time", "time", "count", "depth", "node_id", "tag", "missing"])
    v = [cond(rng, key) for _ in range(rng.choice([0, 1, 2, 2, 3]))] if rng.random() < 0.3 else cond(rng, key)
    return key, v


def cases(seed, tier):
    rng = gen.rng_for(seed, "p15")
    for i in range(6000 if tier == "quick" else 120000):
        n = rng.randint(1, 7)
        sp = gen.rand_tree(rng, n, ["a", "b", "c"], False) if i % 2 else gen.rand_dag(rng, n, ["a", "b", "c"], False)
        f = dict(entry(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])))
        idx = ["node"] if i % 3 == 0 else ["node", "rank"] if i % 3 == 1 else ["node", "rank", "thread"]
        yield {"kind": "single" if len(idx) == 1 else "multi", "sp": sp, "f": f, "index": idx, "mode": rng.choice(["any", "all"]), "ts": rng.randint(0, 99999),
               "off": rng.random() < 0.05}


class Wrong(Exception):
    pass


def one(node, rows, key, c, agg):
    """truth of one condition; rows = list of {col: value}"""
    def number(vals):
        if isinstance(c, str) and c.lower().startswith(tuple(OPS)):
            m = re.match(r"\s*(<=|>=|==|!=|<|>)\s*(.*)$", c)
            return agg([bool(OPS[m.group(1)](v, ast.literal_eval(m.group(2).strip()))) for v in vals])
        if isinstance(c, (int, float)):
            return agg([bool(v == c) for v in vals])
        raise Wrong()

    if key == "depth":
        if isinstance(c, (int, float)) and c == -1:
            return len(node.children) == 0
        return number([node._depth])
    if key == "node_id":
        return number([node._hatchet_nid])
    if key == "missing":
        return False
    vals = [r[key] for r in rows]
    if key in ("name", "tag"):
        if not isinstance(c, str):
            raise Wrong()
        return agg([re.fullmatch(c, v) is not None for v in vals])
    return number(vals)


def want_of(node, rows, f, agg):
    """True/False, or 'wrong' where an ill-typed condition is reached; None where either is right"""
    val = True
    for k, v in f.items():
        if v is None:
            v = [None]
        for c in (v if isinstance(v, list) else [v]):
            try:
                r = one(node, rows, k, c, agg)
            except Wrong:
                return "wrong" if val else None
            val = val and r
    return val


def check(case):
    rng = gen.rng_for(case["ts"])
    idx = tuple(case["index"])
    gf, nodes = B.build_gf(case["sp"], rng, idx)
    df = gf.dataframe
    df["name"] = [rng.choice(NAMES) for _ in range(len(df))]
    df["tag"] = [rng.choice(NAMES) for _ in range(len(df))]
    df["time"] = [rng.choice([0.0, 1.0, 2.5, -0.5, -3.25, 1e3, 5.0, float("nan"), float("inf"), float("-inf"), 7.0] + FINE) for _ in range(len(df))]
    df["count"] = [rng.choice([0, 1, 2, 3, -1, 10] + FINE_INT) for _ in range(len(df))]
    f = case["f"]
    multi = len(idx) > 1
    q = ObjectQuery([f], multi_index_mode=case["mode"] if multi else "off")
    agg = {"any": any, "all": all}[case["mode"]] if multi else all
    pred = q.query_pattern[0][1]
    if not f:
        if pred(None) is not True:
            yield "an empty filter does not match everything"
    expected, any_wrong, any_none = set(), False, False
    before = df.copy(deep=True)
    off = ObjectQuery([f]).query_pattern[0][1] if multi and f and case["off"] else None
    for i, n in enumerate(nodes):
        sub = df.loc[[n]] if multi else df.loc[n]
        rows = [dict(zip(df.columns, r)) for r in (sub.values.tolist() if multi else [list(sub)])]
        want = want_of(n, rows, f, agg)
        row = pd.concat([df.loc[n]], keys=[n], names=["node"]) if multi else df.loc[n]
        if off:
            try:
                off(row)
                yield "a single-row filter is accepted on multi-indexed data"
            except MultiIndexModeMismatch:
                pass
        try:
            got = pred(row)
        except InvalidQueryFilter:
            got = "wrong"
        any_wrong |= want == "wrong"
        any_none |= want is None
        if want is None:
            if got not in (False, "wrong"):
                yield "%s accepts a row although one of its conditions is false: %s" % (f, rows)
        elif isinstance(want, str) or isinstance(got, str):
            if not (isinstance(want, str) and isinstance(got, str)):
                yield "%s on node %d (depth %d) with %s gives %s, expected %s" % (f, n._hatchet_nid, n._depth, rows, got, want)
        elif bool(got) != want:
            yield "%s (%s) on node %d (depth %d, %d children) with %s gives %s, expected %s" % (f, case["mode"] if multi else "single", n._hatchet_nid, n._depth, len(n.children), rows, got, want)
        if want is True:
            expected.add(id(n))
    if not any_wrong and not any_none:
        got = QueryEngine().apply(q, gf.graph, df)
        if {id(n) for n in got} != expected or len(got) != len(expected):
            yield "the query with filter %s selects %d nodes, expected %d" % (f, len(got), len(expected))
    elif any_wrong:
        try:
            QueryEngine().apply(q, gf.graph, df)
            yield "a condition of the wrong type is not reported: %s" % f
        except InvalidQueryFilter:
            pass
    if not df.equals(before):
        yield "the table was changed"
