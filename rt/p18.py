import io
import math
import re
import sys
from collections import Counter

import gen
import build as B
from hatchet.graphframe import GraphFrame
from hatchet.util.colormaps import ColorMaps

BOUND = ("random graphs of up to 9 nodes (trees and graphs with shared nodes), single- and multi-indexed, with finite, missing and infinite metrics, all options of the "
         "tree rendering that select nodes, columns, colours and markers; random thresholds for dot; trees only for flame graphs")

MAPS = ["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"]
BANDS = [0.9, 0.7, 0.5, 0.3, 0.1, 0.0]


def cases(seed, tier):
    rng = gen.rng_for(seed, "p18")
    for i in range(6000 if tier == "quick" else 120000):
        n = rng.randint(1, 9)
        how = ["tree", "dot", "tree", "flame"][i % 4]
        if how == "flame" or rng.random() < 0.4:
            sp = gen.rand_tree(rng, n, ["a", "b", "c"], rng.random() < 0.5)
        else:
            sp = gen.rand_dag(rng, n, ["a", "b", "c"], rng.random() < 0.5)
        yield {"kind": how, "sp": sp, "ts": rng.randint(0, 99999), "index": rng.choice([["node"], ["node"], ["node", "rank"], ["node", "thread"], ["node", "rank", "thread"]])}


def row_of(gf, case, n, rank, thread):
    key = {"rank": rank, "thread": thread}
    idx = tuple([n] + [key[k] for k in case["index"][1:]])
    return gf.dataframe.loc[idx if len(idx) > 1 else n]


def bands(v, lo, hi):
    """indices of the legend's bands v falls in (both at a boundary), or None outside"""
    if math.isnan(v):
        return None
    p = (v - lo) / (hi - lo) if hi != lo else v
    if p < 0:
        return None
    if math.isinf(p):
        return {0}
    out, top = set(), None
    for i, b in enumerate(BANDS):
        if p > b - 1e-9 and (top is None or p < top + 1e-9):
            out.add(i)
        top = b
    return out


class Out(io.StringIO):
    tty = False

    def isatty(self):
        return self.tty


def shown(gf, color, kw):
    """the rendering, as on a terminal (in colour) or elsewhere"""
    old = sys.stdout
    sys.stdout = Out()
    sys.stdout.tty = color
    try:
        return gf.tree(**kw)
    finally:
        sys.stdout = old


def tree(case, gf, rng):
    rank, thread = rng.randint(0, 1), rng.randint(0, 1)
    kw = {"rank": rank, "thread": thread, "render_header": False}
    color = rng.random() < 0.6
    metrics = [rng.choice(["time", "time (inc)"])]
    if rng.random() < 0.3:
        metrics = rng.sample(["time", "time (inc)"], 2)
    kw["metric_column"] = metrics if len(metrics) > 1 or rng.random() < 0.3 else metrics[0]
    depth = rng.choice([10000, 10000, 10000, 0, 1, 1, 2, 2, 3, 3, 4])
    kw["depth"] = depth
    prec = rng.choice([0, 1, 3, 5])
    kw["precision"] = prec
    col = rng.choice(["name", "other"])
    kw["name_column"] = col
    kw["expand_name"] = rng.random() < 0.7
    cmap = rng.choice(MAPS)
    inv = rng.random() < 0.5
    kw["colormap"], kw["invert_colormap"] = cmap, inv
    if rng.random() < 0.3:
        kw["context_column"] = "ctx"
    ann = rng.random() < 0.2
    if ann:
        kw["annotation_column"] = "ctx2"
    txt = shown(gf, color, kw)
    if shown(gf, color, kw) != txt:
        yield "rendering twice gives different texts"
    palette = list(getattr(ColorMaps, cmap))
    if inv:
        palette.reverse()
    vals = [row_of(gf, case, n, rank, thread)[metrics[0]] for n in B.reach(gf.graph.roots)]
    pool = vals
    if "rank" not in case["index"] and "thread" in case["index"]:
        pool = list(gf.dataframe[metrics[0]])
    elif case["index"] == ["node", "rank", "thread"]:
        pool = list(gf.dataframe.xs(rank, level="rank")[metrics[0]])
    fin = [v for v in pool if math.isfinite(v)]
    lo, hi = (min(fin), max(fin)) if fin else (float("nan"), float("nan"))
    END, FAINT = ("\033[0m", "\033[2m") if color else ("", "")
    want, seen = [], set()

    def rec(n, ind, cind):
        if n._depth >= depth:
            return
        row = row_of(gf, case, n, rank, thread)
        v = row[metrics[0]]
        cols = [""]
        if color and fin:
            b = bands(v, lo, hi)
            cols = ["\033[34m"] if b is None else [palette[i] for i in b]
        elif color:
            cols = None
        name = row[col]
        if not kw["expand_name"] and len(name) > 39:
            name = name[:18] + "..." + name[-18:]
        tail = "%.*f" % (prec, v) + END
        if len(metrics) > 1:
            tail += " %s%.*f%s" % (FAINT, prec, row[metrics[1]], END)
        if ann:
            tail += " [%s]" % row["ctx2"]
        tail += " " + name + END
        if "_missing_node" in gf.dataframe.columns:
            m = row["_missing_node"]
            if m == 1:
                tail += " %s\u25c0 %s" % ("\033[38;5;160m" if color else "", END)
            elif m == 2:
                tail += " %s\u25b6 %s" % ("\033[38;5;28m" if color else "", END)
        if kw.get("context_column"):
            tail += " %s%s%s" % (FAINT, row["ctx"], END)
        want.append((ind, cols, tail))
        if id(n) in seen:
            return
        seen.add(id(n))
        ch = sorted(n.children, key=lambda c: c._hatchet_nid)
        for i, c in enumerate(ch):
            last = i == len(ch) - 1
            rec(c, cind + ("\u2514\u2500 " if last else "\u251c\u2500 "), cind + ("   " if last else "\u2502  "))
    for r in sorted(gf.graph.roots, key=lambda c: c._hatchet_nid):
        rec(r, "", "")
    body = txt.split("\n\033[4mLegend")[0] if color else txt
    lines = body.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if len(lines) != len(want):
        yield "%d lines are shown, expected %d: %s" % (len(lines), len(want), kw)
        return
    for l, (ind, cols, tail) in zip(lines, want):
        if cols is None:
            ok = l.startswith(ind) and l.endswith(tail)
        else:
            ok = any(l == ind + c + tail for c in cols)
        if not ok:
            yield "line %r is shown, expected %r with one of %s (%s)" % (l, ind + tail, cols, kw)
            return
    if color and fin:
        leg = txt.split("Legend")[1]
        for i, (a, b) in enumerate(zip(BANDS, [1.0] + BANDS)):
            exp = "%s\u2588 \033[0m%.2f - %.2f\n" % (palette[i], a * (hi - lo) + lo, b * (hi - lo) + lo)
            if exp not in leg:
                yield "the legend lacks %r" % exp


def dot(case, gf, rng):
    rank, thread = rng.randint(0, 1), rng.randint(0, 1)
    metric = rng.choice(["time", "time (inc)"])
    thr = rng.choice([0.0, 0.0, 0.1, 0.3, 0.5, 0.9])
    name = rng.choice(["name", "other"])
    kw = dict(metric=metric, name=name, rank=rank, thread=thread, threshold=thr)
    txt = gf.to_dot(**kw)
    if gf.to_dot(**kw) != txt:
        yield "rendering twice gives different texts"
    mx = gf.dataframe[metric].max()
    ok = lambda n: row_of(gf, case, n, rank, thread)[metric] >= thr * mx  # noqa: E731
    nodes, edges, st = [], Counter(), [r for r in gf.graph.roots if ok(r)]
    seen = set()
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        nodes.append(n)
        for c in n.children:
            if ok(c):
                edges[(n._hatchet_nid, c._hatchet_nid)] += 1
                st.append(c)
    decl = Counter()
    got_e = Counter()
    for l in txt.split("\n"):
        m = re.match(r'^"(\d+)" \[color="#[0-9a-f]{6}", label="(.*)" shape=oval\];$', l)
        e = re.match(r'^"(\d+)" -> "(\d+)";$', l)
        if m:
            decl[(int(m.group(1)), m.group(2))] += 1
        elif e:
            got_e[(int(e.group(1)), int(e.group(2)))] += 1
    want = Counter((n._hatchet_nid, row_of(gf, case, n, rank, thread)[name]) for n in nodes)
    if decl != want:
        yield "dot declares %s, expected %s" % (sorted(decl.items()), sorted(want.items()))
    if set(got_e) != set(edges):
        yield "dot has edges %s, expected %s" % (sorted(got_e), sorted(edges))
    if any(v > 1 for v in got_e.values()):
        yield "dot repeats an edge"
    if not txt.startswith("strict digraph {") or not txt.rstrip().endswith("}"):
        yield "not a dot graph"


def flame(case, gf, rng):
    rank, thread = rng.randint(0, 1), rng.randint(0, 1)
    metric = rng.choice(["time", "time (inc)"])
    name = rng.choice(["name", "other"])
    txt = gf.to_flamegraph(metric=metric, name=name, rank=rank, thread=thread)
    want = []

    def rec(n, pre):
        row = row_of(gf, case, n, rank, thread)
        p = pre + [str(row[name])]
        want.append("; ".join(p) + " %d" % round(row[metric]))
        for c in n.children:
            rec(c, p)
    for r in gf.graph.roots:
        rec(r, [])
    if sorted(txt.split("\n")) != sorted(want + [""]):
        yield "flame graph lines %s, expected %s" % (sorted(txt.split("\n")), sorted(want))


def check(case):
    rng = gen.rng_for(case["ts"])
    how = case["kind"]
    g, nodes = B.build_graph(case["sp"])
    df = B.table(nodes, tuple(case["index"]), ["time", "time (inc)"], rng)
    if how == "tree":
        for _ in range(rng.choice([0, 0, 1, 2])):
            df.iloc[rng.randrange(len(df)), df.columns.get_loc(rng.choice(["time", "time (inc)"]))] = rng.choice([float("nan"), float("inf"), -4.5])
    elif how == "dot":
        if rng.random() < 0.3:
            df["time"] = [rng.choice([-9.5, -4.0, -1.25, 0.0, 0.5, 2.0, 3.0]) for _ in range(len(df))]
    elif how == "flame":
        df["time"] = [x + rng.choice([0, 0.25, 0.5, 0.75]) for x in df["time"]]
    df["other"] = ["n%d" % i if rng.random() < 0.8 else ("long" * 12)[:rng.choice([38, 39, 40, 41, 48]) - len(str(i))] + str(i) for i in range(len(df))]
    df["ctx"] = ["c%d" % i for i in range(len(df))]
    df["ctx2"] = ["d%d" % i for i in range(len(df))]
    if rng.random() < 0.4:
        df["_missing_node"] = [rng.randint(0, 2) for _ in range(len(df))]
    gf = GraphFrame(g, df, ["time"], ["time (inc)"])
    snap, keep = B.snapshot(g.roots), df.copy(deep=True)
    yield from {"tree": tree, "dot": dot, "flame": flame}[how](case, gf, rng)
    if B.snapshot(g.roots) != snap or not df.equals(keep) or list(df.columns) != list(keep.columns) or gf.dataframe is not df:
        yield "rendering changed the graphframe"
