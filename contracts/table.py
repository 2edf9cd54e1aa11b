"""The table of a graphframe as seen by the contracts: a cell for every column, row label and node.

Assumed contracts on pandas, stated here once: what loc, column assignment, copying and aggregation mean.
"""
from .trav import *
from pyvc.exec import str_map, str_test, str_slice, str_concat, Builtin, ModuleVal, LambdaVal, PyRaise

GFPY = "hatchet/graphframe.py"
CELLS, INDEX, REST, CELL, SERIES, AGG, COLUMN = (Sort(x) for x in ("Cells", "RowIndex", "Rest", "Cell", "Series", "Agg", "Column"))
DF, GF = Ref("DataFrame"), Ref("GraphFrame")
COLS = Seq(STR)
CS, CC = SeqTheory(STR), SeqTheory(CELL)
COL_S, CELLS_S, INDEX_S, REST_S, CELL_S, AGG_S, SN_S = sort_of(STR), usort("Cells"), usort("RowIndex"), usort("Rest"), usort("Cell"), usort("Agg"), sort_of(NS_)
cell = fn("cell", CELLS_S, COL_S, REST_S, NODE_S, CELL_S)
has_row = fn("has_row", INDEX_S, REST_S, NODE_S, B)
some_row = fn("some_row", INDEX_S, NODE_S, REST_S)
multi = fn("is_multi_index", INDEX_S, B)
tuple_rest = fn("rest_is_tuple", REST_S, B)
series = fn("series", CELLS_S, INDEX_S, COL_S, REST_S, SN_S, usort("Series"))
agg = fn("aggregate", AGG_S, usort("Series"), CELL_S)
SUM1 = z3.Const("sum_with_min_count_1", AGG_S)  # missing values skipped, and missing if there is no value
column = fn("column", CELLS_S, INDEX_S, COL_S, usort("Column"))
incol = fn("cell_of_column", usort("Column"), REST_S, NODE_S, CELL_S)
whole = z3.Const("whole_row", REST_S)
r_, p_ = z3.Consts("r p", REST_S)
t_, w_ = z3.Consts("t w", CELLS_S)
ix_ = z3.Const("ix", INDEX_S)
a_, b_ = z3.Consts("col col2", COL_S)
s_ = z3.Const("s", SN_S)
ONE, MANY, DFPART, PERCOL, RESTS = T("rowkey"), T("rowkeys"), T("dfpart"), T("percolumn"), T("restlist")


def definitions():
    d = fn("series_differ", CELLS_S, CELLS_S, INDEX_S, COL_S, COL_S, REST_S, SN_S, I)(t_, w_, ix_, a_, b_, r_, s_)
    x = SN.at(s_, d)
    s1, s2 = series(t_, ix_, a_, r_, s_), series(w_, ix_, b_, r_, s_)
    return [FA([ix_, r_, n_], Imp(And(Not(multi(ix_)), has_row(ix_, r_, n_)), r_ == whole), patterns=[has_row(ix_, r_, n_)]),
            FA([t_, w_, ix_, a_, b_, r_, s_], Or(s1 == s2, And(0 <= d, d < SN.len(s_), has_row(ix_, r_, x), cell(t_, a_, r_, x) != cell(w_, b_, r_, x))), patterns=[MP(s1, s2)]),
            FA([t_, ix_, a_, r_, n_], incol(column(t_, ix_, a_), r_, n_) == cell(t_, a_, r_, n_), patterns=[incol(column(t_, ix_, a_), r_, n_)])]


def update(ex, df, new):
    """The table becomes new(column, row, node, old cell)."""
    old = ex.read_field("DataFrame.cells", df).x
    t = const("cells", CELLS)
    c0, c1 = cell(old, a_, r_, n_), cell(t, a_, r_, n_)
    ex.fact(FA([a_, r_, n_], c1 == new(a_, r_, n_, c0), patterns=[c1]))
    ex.fact(FA([a_, r_, n_], c1 == new(a_, r_, n_, c0), patterns=[c0]))
    ex.write_field("DataFrame.cells", df, V(CELLS, t))


def row_key(ex, k):
    """(rest, node or nodes, True if one row) of a row label of loc, or None."""
    k = ex.read(k) if k.t.k in CONTAINER_KINDS else k
    if k.t == N:
        return whole, k.x, True, False
    if k.t == NS_:
        return whole, k.x, False, False
    if k.t.k == "tup" and len(k.x) == 2 and k.x[1].t == REST:
        who = ex.read(k.x[0])
        if not getattr(k, "flat", False):
            ex.prove("a row label of two levels has a second level that is no tuple", Not(tuple_rest(k.x[1].x)))
        return k.x[1].x, who.x, who.t == N, True
    return None


CONTAINER_KINDS = ("seq", "map", "set")


def pandas(reg):
    reg.cls("DataFrame", GFPY, "DataFrame", cells=("cells", CELLS), rows=("index", INDEX))
    reg.cls("GraphFrame", GFPY, graph=("graph", G), dataframe=("dataframe", DF), exc=("exc_metrics", COLS), inc=("inc_metrics", COLS))
    reg.assumptions.append("pandas: a table is a cell for every column, row label and node; loc reads and writes exactly the cells it names, df[c] = s writes the column c, df[list].copy() has the same cells, "
                           "index.unique() lists the row labels of a node once each; a series of several rows depends only on the cells of those rows that exist; an aggregate function is a function of the series, and is applied to a frame column by column; "
                           "assignments neither convert nor align values; the graphframe's table is not shared with another graphframe")

    def isinst(ex, args, kw, e):
        a, c = args[0], args[1].x
        nm = getattr(c, "name", "")
        if a.t == INDEX:
            if nm == "pandas.core.index.MultiIndex":
                raise PyRaise("AttributeError", ex.line)  # the installed pandas has no pandas.core.index
            if nm == "pandas.MultiIndex":
                return V(BOOL, multi(a.x))
        if a.t == REST and nm == "tuple":
            return V(BOOL, tuple_rest(a.x))
        if a.t == REST and nm == "list":
            return V(BOOL, z3.BoolVal(False))
        return None
    reg.externs["builtin:isinstance"] = isinst

    def plus(ex, vs):
        a, b = vs
        if a.t.k == "tup" and len(a.x) == 1 and b.t == REST:
            ex.prove("the second level is a tuple", tuple_rest(b.x))
            r = V(Tup(a.x[0].t, REST), [a.x[0], b])
            r.flat = True
            return r
        return None
    reg.externs["op:Add"] = plus

    def loc_of(ex, recv):
        a = recv.x
        if isinstance(a, Builtin) and a.name == "loc" and a.recv is not None and a.recv.t == DF:
            return a.recv.x
        raise Unsupported("subscript at line %d" % ex.line)

    def present(ex, ix, rest, who, one, full):
        if one:
            ex.prove("the row exists", has_row(ix, rest, who))
        else:
            i = z3.Int("i")
            goal = FA([i], Imp(And(0 <= i, i < SN.len(who)), has_row(ix, rest, SN.at(who, i))), patterns=[SN.at(who, i)])
            ex.prove("the rows exist", goal if not full else Or(multi(ix), goal))
        ex.prove("the row label has as many levels as the index", multi(ix) == z3.BoolVal(full))

    def item(ex, recv, args, kw, e):
        df = loc_of(ex, recv)
        cells, ix = ex.read_field("DataFrame.cells", df).x, ex.read_field("DataFrame.rows", df).x
        k = args[0]
        if k.t == N:
            return V(T("rowsof"), (ix, k.x))
        if k.t.k == "tup" and len(k.x) == 2:
            c = ex.read(k.x[1])
            if c.t == COLS:
                if k.x[0].t == N:
                    return V(T("rowsof"), (ix, k.x[0].x))
                rk = row_key(ex, k.x[0])
                if rk and not rk[2]:
                    present(ex, ix, *rk)
                    return V(DFPART, (cells, ix, c.x, rk[0], rk[1]))
            if c.t == STR:
                rk = row_key(ex, k.x[0])
                if rk:
                    present(ex, ix, *rk)
                    return V(CELL, cell(cells, c.x, rk[0], rk[1])) if rk[2] else V(SERIES, series(cells, ix, c.x, rk[0], rk[1]))
        raise Unsupported("row label of loc at line %d" % ex.line)

    def set_item(ex, recv, args, kw, e):
        df = loc_of(ex, recv)
        ix = ex.read_field("DataFrame.rows", df).x
        k, v = args[0], ex.read(args[1])
        if not (k.t.k == "tup" and len(k.x) == 2):
            raise Unsupported("row label of loc at line %d" % ex.line)
        c = ex.read(k.x[1])
        if c.t == COLS and k.x[0].t == N and v.t == Seq(CELL):
            node = k.x[0].x
            present(ex, ix, whole, node, True, False)
            ex.prove("as many values as columns", CC.len(v.x) == CS.len(c.x))
            ex.prove("the columns are listed once", FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < CS.len(c.x)), CS.at(c.x, i_) != CS.at(c.x, j_)), patterns=[MP(CS.at(c.x, i_), CS.at(c.x, j_))]))
            update(ex, df, lambda col, r, n, old: If(And(n == node, r == whole, CS.mem(c.x, col)), CC.at(v.x, CS.idx(c.x, col)), old))
            return
        rk = row_key(ex, k.x[0])
        if c.t == STR and rk and rk[2]:
            present(ex, ix, *rk)
            if v.t == Seq(CELL):
                ex.seq_types.add(CELL)
                ex.prove("one value", CC.len(v.x) == 1)
                v = V(CELL, CC.at(v.x, z3.IntVal(0)))
            if v.t == CELL:
                update(ex, df, lambda col, r, n, old: If(And(n == rk[1], r == rk[0], col == c.x), v.x, old))
                return
        raise Unsupported("assignment to loc at line %d" % ex.line)
    reg.methods[("DataFrame", "loc")] = lambda *a: None
    reg.methods[("py", "__getitem__")] = item
    reg.methods[("py", "__setitem__")] = set_item

    def df_item(ex, recv, args, kw, e):
        k = ex.read(args[0]) if args[0].t.k in CONTAINER_KINDS else args[0]
        cells, ix = ex.read_field("DataFrame.cells", recv.x).x, ex.read_field("DataFrame.rows", recv.x).x
        if k.t == STR:
            return V(COLUMN, column(cells, ix, k.x))
        if k.t == COLS:
            return V(T("dfcolumns"), (cells, ix, k.x))
        raise Unsupported("subscript of a table at line %d" % ex.line)

    def df_set(ex, recv, args, kw, e):
        k, v = args
        if k.t == STR and v.t == COLUMN:
            update(ex, recv.x, lambda col, r, n, old: If(col == k.x, incol(v.x, r, n), old))
            return
        raise Unsupported("assignment to a table at line %d" % ex.line)
    reg.methods[("DataFrame", "__getitem__")] = df_item
    reg.methods[("DataFrame", "__setitem__")] = df_set

    def copy(ex, recv, args, kw, e):
        cells, ix, cols = recv.x
        o = ex.alloc("DataFrame")
        t = const("cells", CELLS)
        c0, c1 = cell(cells, a_, r_, n_), cell(t, a_, r_, n_)
        for p in (c0, c1):
            ex.fact(FA([a_, r_, n_], Imp(CS.mem(cols, a_), c1 == c0), patterns=[p]))
        ex.write_field("DataFrame.cells", o.x, V(CELLS, t))
        ex.write_field("DataFrame.rows", o.x, V(INDEX, ix))
        return o
    reg.methods[("dfcolumns", "copy")] = copy

    def unique(ex, recv, args, kw, e):
        b = recv.x
        if not (isinstance(b, Builtin) and b.name == "index" and b.recv is not None and b.recv.t == T("rowsof")):
            raise Unsupported("unique at line %d" % ex.line)
        ix, node = b.recv.x
        ex.prove("the node has rows", has_row(ix, some_row(ix, node), node))
        th, ks = SeqTheory(REST), const("row_labels", Seq(REST))
        ex.seq_types.add(REST)
        ex.fact(FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < th.len(ks)), th.at(ks, i_) != th.at(ks, j_)), patterns=[MP(th.at(ks, i_), th.at(ks, j_))]))
        ex.fact(FA([r_], th.mem(ks, r_) == has_row(ix, r_, node), patterns=[th.mem(ks, r_)]))
        ex.fact(FA([r_], th.mem(ks, r_) == has_row(ix, r_, node), patterns=[has_row(ix, r_, node)]))
        return V(Seq(REST), ks)
    reg.methods[("py", "unique")] = unique

    def apply(ex, f, args, kw, e):
        a = args[0]
        if a.t == SERIES:
            return V(CELL, agg(f.x, a.x))
        if a.t == DFPART:
            return V(PERCOL, (f.x,) + a.x)
        raise Unsupported("aggregate of a %s at line %d" % (a.t, ex.line))
    reg.methods[("Agg", "__call__")] = apply

    def series_sum(ex, recv, args, kw, e):
        if args or set(kw) != {"min_count"} or ex.concrete_int(kw["min_count"]) != 1:
            raise Unsupported("sum of a series with other arguments than min_count=1 at line %d" % ex.line)
        return V(CELL, agg(SUM1, recv.x))
    reg.methods[("Series", "sum")] = series_sum

    def as_function(ex, v):
        """A lambda expression given as aggregate function, if it applies one aggregate to its argument."""
        if not (v.t == PY and isinstance(v.x, LambdaVal)):
            return None
        x = const("any_series", SERIES)
        r = ex.call_lambda(v.x, [V(SERIES, x)], {})
        if r.t == CELL and r.x.decl().eq(agg) and r.x.arg(1).eq(x):
            return V(AGG, r.x.arg(0))
        raise Unsupported("lambda as aggregate function at line %d" % ex.line)
    reg.externs["coerce:" + mangle(AGG)] = as_function

    def listed(ex, args, kw, e):
        if len(args) == 1 and args[0].t == PERCOL:
            f, cells, ix, cols, rest, who = args[0].x
            r = const("aggregates", Seq(CELL))
            ex.seq_types |= {CELL, STR}
            ex.fact(CC.len(r) == CS.len(cols))
            ex.fact(FA([i_], Imp(And(0 <= i_, i_ < CS.len(cols)), CC.at(r, i_) == agg(f, series(cells, ix, CS.at(cols, i_), rest, who))), patterns=[CC.at(r, i_)]))
            return V(Seq(CELL), r)
        return None
    reg.externs["builtin:list"] = listed
