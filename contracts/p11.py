"""P11: a generated exclusive metric is the inclusive value minus the sum of the children's inclusive values, per row label."""
from .table import *
from pyvc.exec import NONEV

LABEL, PAIR = Sort("RowLabel"), Tup(STR, STR)
PS = SeqTheory(PAIR)
PAIR_S, LABEL_S = sort_of(PAIR), sort_of(LABEL)
first, second, pair = PAIR_S.accessor(0, 0), PAIR_S.accessor(0, 1), PAIR_S.constructor(0)
label = fn("row_label", I, REST_S, LABEL_S)  # rows are looked up by the number of the node
lab_nid, lab_rest = fn("label_number", LABEL_S, I), fn("label_rest", LABEL_S, REST_S)
num = fn("number", I, CELL_S)
plus, minus = fn("plus", CELL_S, CELL_S, CELL_S), fn("minus", CELL_S, CELL_S, CELL_S)
zeroed = fn("nan_to_num", CELL_S, CELL_S)
numeric = fn("is_numeric_column", usort("Column"), B)
MISSING = z3.Const("missing", CELL_S)
exc_name = fn("exclusive_name", COL_S, COL_S)
inc_of = fn("inclusive_metric_of", COL_S, COL_S)
csum = fn("children_sum", CELLS_S, COL_S, REST_S, SN_S, I, CELL_S)
q_ = z3.Int("q")
x_ = z3.Const("x", CELL_S)


def theory():
    """Row labels, the sum over a sequence of nodes in its order, missing values counting as zero, and the names."""
    S = lambda k: csum(t_, a_, r_, s_, k)
    return [FA([q_, r_], And(lab_nid(label(q_, r_)) == q_, lab_rest(label(q_, r_)) == r_), patterns=[label(q_, r_)]),
            FA([t_, a_, r_, s_], S(0) == num(0), patterns=[S(0)]),
            FA([t_, a_, r_, s_, k_], Imp(And(0 <= k_, k_ < SN.len(s_)), S(k_ + 1) == plus(S(k_), zeroed(cell(t_, a_, r_, SN.at(s_, k_))))), patterns=[MP(S(k_), SN.at(s_, k_))]),
            FA([x_], minus(x_, num(0)) == x_, patterns=[minus(x_, num(0))]),
            FA([a_], exc_name(a_) == If(str_test("endswith")(a_, strlit("(inc)")), str_map("strip")(str_slice(None, -5)(a_)), str_concat(a_, strlit(" (exc)"))), patterns=[exc_name(a_)])]


class Exc:
    def __init__(self, c):
        self.c = c
        self.df = c.h0.dataframe(c.p.self)
        self.t0, self.ix = c.h0.cells(self.df), c.h0.rows(self.df)
        self.ch, self.g, self.nid = c.h0.arr("Node.children"), c.h0.graph(c.p.self), c.h0.arr("Node.nid")
        self.roots = c.h0.roots(self.g)
        self.inc, self.old = c.h0.inc(c.p.self), c.h0.exc(c.p.self)

    def asked(self, a):
        v = self.c.pv("inc_metrics")
        if v.t == NONE:
            return z3.BoolVal(True)
        p = self.c.p.inc_metrics
        return a == p if v.t == STR else Or(CS.len(p) == 0, CS.mem(p, a))

    def chosen(self, a):
        ends = str_test("endswith")(a, strlit("(inc)"))
        return And(CS.mem(self.inc, a), self.asked(a), numeric(column(self.t0, self.ix, a)), Or(Not(ends), Not(CS.mem(self.old, exc_name(a)))))

    def generated(self, a):
        """a is the name of a generated column; inc_of names the metric it comes from."""
        return And(self.chosen(inc_of(a)), exc_name(inc_of(a)) == a)

    def reach(self, n):
        return greach(self.ch, self.roots, n)

    def there(self, r, n):
        return And(self.reach(n), has_row(self.ix, r, n))

    def total(self, a, r, n, k=None):
        return csum(self.t0, a, r, self.ch[n], SN.len(self.ch[n]) if k is None else k)

    def value(self, a, r, n):
        return minus(cell(self.t0, a, r, n), self.total(a, r, n))

    # the state in the loops
    def now(self):
        h = self.c.h
        df = h.dataframe(self.c.p.self)
        return df, h.cells(df), h.rows(df)

    def pairs(self):
        return self.c.v.generation_pairs

    def paired(self, upto=None):
        """The pairs collected so far are those of chosen metrics, and every chosen one among the first upto is there."""
        p = self.pairs()
        x = PS.at(p, i_)
        out = [("what was collected are pairs of a chosen metric and its name", FA([i_], Imp(And(0 <= i_, i_ < PS.len(p)), And(self.chosen(second(x)), first(x) == exc_name(second(x)))), patterns=[x]))]
        y = CS.at(self.inc, i_)
        out.append(("the chosen metrics are collected", FA([i_], Imp(And(0 <= i_, i_ < (CS.len(self.inc) if upto is None else upto), self.chosen(y)), PS.mem(p, pair(exc_name(y), y))), patterns=[y])))
        return out

    def table(self, upto):
        """The columns of the first upto pairs are there; no other column changed."""
        df, t, ix = self.now()
        p = self.pairs()
        x = PS.at(p, i_)
        cur = cell(t, a_, r_, n_)
        old = cell(self.t0, a_, r_, n_)
        return [("the columns made so far hold the exclusive values", FA([i_, r_, n_], Imp(And(0 <= i_, i_ < upto, self.there(r_, n_)), cell(t, first(x), r_, n_) == self.value(second(x), r_, n_)), patterns=[cell(t, first(x), r_, n_)])),
                ("columns that are not generated are unchanged", FA([a_, r_, n_], Or(self.generated(a_), cur == old), patterns=[cur])),
                ("the rows are unchanged", ix == self.ix),
                ("the table exists", self.c.h.alive("DataFrame", df))] + self.frame()

    def frame(self):
        c = self.c
        o, g = z3.Const("o", sort_of(DF)), z3.Const("gf", sort_of(GF))
        k = lambda key: c.h.arr(key)
        return [("tables that were there are unchanged", FA([o], Imp(c.h0.alive("DataFrame", o), And(k("DataFrame.cells")[o] == c.h0.arr("DataFrame.cells")[o], k("DataFrame.rows")[o] == c.h0.arr("DataFrame.rows")[o])), patterns=[k("DataFrame.cells")[o], k("DataFrame.rows")[o]])),
                ("other graphframes keep their table", FA([g], Imp(g != c.p.self, k("GraphFrame.dataframe")[g] == c.h0.arr("GraphFrame.dataframe")[g]), patterns=[k("GraphFrame.dataframe")[g]]))]


def hooks(reg):
    reg.externs["pandas.api.types.is_numeric_dtype"] = lambda ex, args, kw, e: V(BOOL, numeric(args[0].x)) if args[0].t == COLUMN else unsupported(ex, "type test")
    reg.externs["numpy.nan_to_num"] = lambda ex, args, kw, e: V(CELL, zeroed(args[0].x)) if args[0].t == CELL and not kw else unsupported(ex, "nan_to_num")

    def unsupported(ex, what):
        raise Unsupported("%s at line %d" % (what, ex.line))

    def to_cell(ex, v):
        return V(CELL, num(v.x)) if v.t == INT else None
    reg.externs["coerce:" + mangle(CELL)] = to_cell

    def to_label(ex, v):
        nid = ex.hget("Node.nid")[0]
        if v.t == N:
            return V(LABEL, label(nid[v.x], whole))
        if v.t.k == "tup" and len(v.x) == 2 and v.x[1].t == REST:
            who = ex.read(v.x[0])
            if who.t == N:
                if not getattr(v, "flat", False):
                    ex.prove("a row label of two levels has a second level that is no tuple", Not(tuple_rest(v.x[1].x)))
                return V(LABEL, label(nid[who.x], v.x[1].x))
        return None
    reg.externs["coerce:" + mangle(LABEL)] = to_label

    def arith(f):
        def op(ex, vs):
            if all(v.t in (CELL, INT) for v in vs) and any(v.t == CELL for v in vs):
                return V(CELL, f(*[ex.coerce(v, CELL).x for v in vs]))
            return None
        return op
    old = reg.externs["op:Add"]
    reg.externs["op:Add"] = lambda ex, vs: arith(plus)(ex, vs) or old(ex, vs)
    reg.externs["op:Sub"] = arith(minus)

    def as_tuple(ex, args, kw, e):
        a = args[0] if args else None
        if a is None:
            return None
        if a.t == REST:
            ex.prove("the second level is a tuple", tuple_rest(a.x))
            return a
        if a.t.k == "seq" and a.t.a[0] in (N, REST):
            s, th = ex.read(a).x, SeqTheory(a.t.a[0])
            x = z3.simplify(s)
            if x.num_args() == 2 and x.decl().eq(th.app(th.empty, th.at(s, z3.IntVal(0))).decl()) and x.arg(0).eq(th.empty):
                return V(Tup(a.t.a[0]), [unpack(a.t.a[0], x.arg(1))])
        return None
    reg.externs["builtin:tuple"] = as_tuple

    def values(ex, recv, args, kw, e):
        """index.values of a table with one level: the nodes of the rows."""
        ix = recv.x
        ex.prove("the index has one level", Not(multi(ix)))
        s = const("labels", NS_)
        ex.seq_types.add(N)
        for p in (SN.mem(s, n_), has_row(ix, whole, n_)):
            ex.fact(FA([n_], SN.mem(s, n_) == has_row(ix, whole, n_), patterns=[p]))
        return V(NS_, s)
    values.is_property = True
    reg.methods[("RowIndex", "values")] = values

    def series(ex, args, kw, e):
        if args or set(kw) != {"data"}:
            unsupported(ex, "Series of other arguments")
        m = ex.read(kw["data"])
        if m.t != Map(LABEL, CELL):
            unsupported(ex, "Series of a %s" % m.t)
        nid, k = ex.hget("Node.nid")[0], const("series", COLUMN)
        l = label(nid[n_], r_)
        ex.fact(FA([r_, n_], incol(k, r_, n_) == If(m.x.has(l), m.x.get(l), MISSING), patterns=[incol(k, r_, n_)]))
        return V(COLUMN, k)
    reg.externs["pandas.Series"] = series

    def assign(ex, recv, args, kw, e):
        cols = kw.pop("**", None)
        cols = ex.read(cols) if cols is not None else None
        if args or kw or cols is None or cols.t != Map(STR, COLUMN):
            unsupported(ex, "assign of other arguments")
        cells, ix = ex.read_field("DataFrame.cells", recv.x).x, ex.read_field("DataFrame.rows", recv.x).x
        o = ex.alloc("DataFrame")
        t = const("cells", CELLS)
        c0, c1 = cell(cells, a_, r_, n_), cell(t, a_, r_, n_)
        new = If(cols.x.has(a_), incol(cols.x.get(a_), r_, n_), c0)
        for p in (c0, c1):
            ex.fact(FA([a_, r_, n_], c1 == new, patterns=[p]))
        ex.write_field("DataFrame.cells", o.x, V(CELLS, t))
        ex.write_field("DataFrame.rows", o.x, V(INDEX, ix))
        return o
    reg.methods[("DataFrame", "assign")] = assign
    reg.assumptions.append("pandas, for exclusive metrics: index.values lists the row labels; a Series made from a dictionary has its values, and assign gives a new table with the given columns, aligned by row label, and the other columns and the rows as they were; "
                           "row labels are told apart by the numbers of their nodes; adding, subtracting and nan_to_num are functions of the values, and subtracting the number 0 changes nothing; is_numeric_dtype is a function of the column")


def generate():
    def rows(c):
        s = Exc(c)
        return FA([n_], Imp(s.reach(n_), has_row(s.ix, some_row(s.ix, n_), n_)), patterns=[s.reach(n_), some_row(s.ix, n_)])

    def complete(c):
        s = Exc(c)
        return FA([n_, r_, m_], Imp(And(s.there(r_, n_), SN.mem(s.ch[n_], m_)), has_row(s.ix, r_, m_)), patterns=[MP(has_row(s.ix, r_, n_), SN.mem(s.ch[n_], m_))])

    def numbers(c):
        s = Exc(c)
        return FA([n_, m_], Imp(And(s.reach(n_), s.reach(m_), s.nid[n_] == s.nid[m_]), n_ == m_), patterns=[MP(s.reach(n_), s.reach(m_))])

    def names(c):
        s = Exc(c)
        return And(FA([a_, b_], Imp(And(s.chosen(a_), s.chosen(b_), exc_name(a_) == exc_name(b_)), a_ == b_), patterns=[MP(exc_name(a_), exc_name(b_))]),
                   FA([a_], Imp(CS.mem(s.inc, a_), Not(s.generated(a_))), patterns=[CS.mem(s.inc, a_)]))

    def entry(c):
        s = Exc(c)
        return definitions() + theory() + greach_axioms(s.ch, s.roots) + acyclic_def(s.ch) + [
            FA([a_], Imp(s.chosen(a_), And(s.chosen(inc_of(exc_name(a_))), exc_name(inc_of(exc_name(a_))) == exc_name(a_))), patterns=[exc_name(a_)])]

    def result(c):
        s = Exc(c)
        df, t, ix = s.now()
        return FA([a_, r_, n_], Imp(And(s.chosen(a_), s.there(r_, n_)), cell(t, exc_name(a_), r_, n_) == s.value(a_, r_, n_)), patterns=[cell(t, exc_name(a_), r_, n_)])

    def leaves(c):
        s = Exc(c)
        df, t, ix = s.now()
        return FA([a_, r_, n_], Imp(And(s.chosen(a_), s.there(r_, n_), SN.len(s.ch[n_]) == 0), cell(t, exc_name(a_), r_, n_) == cell(s.t0, a_, r_, n_)), patterns=[cell(t, exc_name(a_), r_, n_)])

    def others(c):
        s = Exc(c)
        df, t, ix = s.now()
        x, y = cell(t, a_, r_, n_), cell(s.t0, a_, r_, n_)
        return And(ix == s.ix, FA([a_, r_, n_], Or(s.generated(a_), x == y), patterns=[x]))

    def listed(c):
        s = Exc(c)
        now = c.h.exc(c.p.self)
        return And(FA([a_], Imp(CS.mem(now, a_), Or(CS.mem(s.old, a_), s.generated(a_))), patterns=[CS.mem(now, a_)]), FA([a_], Imp(CS.mem(s.old, a_), CS.mem(now, a_)), patterns=[CS.mem(s.old, a_)]),
                   FA([a_], Imp(s.chosen(a_), CS.mem(now, exc_name(a_))), patterns=[exc_name(a_)]))

    inv = lambda ns, f: [(n, lambda c, n=n: dict(f(c))[n]) for n in ns]
    P = ["what was collected are pairs of a chosen metric and its name", "the chosen metrics are collected"]
    W = ["the columns made so far hold the exclusive values", "columns that are not generated are unchanged", "the rows are unchanged", "the table exists", "tables that were there are unchanged", "other graphframes keep their table"]
    fr = lambda c: Exc(c).frame()

    def loop0(c):
        return Exc(c).paired(c.i)

    def loop1(c):
        return Exc(c).table(c.i)

    def done(c, seq, i, extra=None):
        """The data collected for nodes before position i (and at it for the row labels for which extra holds)."""
        s = Exc(c)
        m, a = c.v.new_data, c.v.inc
        x = SN.at(seq, j_)
        l = label(s.nid[x], r_)
        d = j_ < i if extra is None else Or(j_ < i, And(j_ == i, extra(r_)))
        return [("the values collected are exclusive values", FA([j_, r_], Imp(And(0 <= j_, j_ < SN.len(seq), d, has_row(s.ix, r_, x)), And(m.has(l), m.get(l) == s.value(a, r_, x))), patterns=[m.get(l), MP(x, has_row(s.ix, r_, x))]))]
    RS, p_i = SeqTheory(REST), z3.Int("before")
    upto = lambda seq, i, r: z3.Exists([p_i], And(0 <= p_i, p_i < i, RS.at(seq, p_i) == r))
    D = ["the values collected are exclusive values"]

    def adding(c):
        s = Exc(c)
        n, a = c.v.node, c.v.inc
        r = c.outer[-1].seq
        rest = RS.at(r, c.outer[-1].i) if len(c.outer) == 3 else whole
        return [("the sum over the first children", c.v.inc_sum == s.total(a, rest, n, c.i))]
    A = ["the sum over the first children"]
    sp = Spec(GFPY, "GraphFrame.generate_exclusive_columns", {"self": GF, "inc_metrics": COLS}, NONE, views={"all metrics": {"inc_metrics": None}, "one name": {"inc_metrics": STR}, "given names": {}},
              modifies=["GraphFrame.dataframe", "GraphFrame.exc", "DataFrame.cells", "DataFrame.rows", "alloc:DataFrame"], entry=entry,
              requires=[("every node has a row", rows), ("where a node has a row its children do", complete), ("the nodes of the graph have different numbers", numbers),
                        ("the names of the generated columns differ from each other and from those of the inclusive metrics", names), ("the graph has no cycles", lambda c: acyclic(Exc(c).ch)), ("the table exists", lambda c: c.h0.alive("DataFrame", Exc(c).df))],
              ensures=[("every chosen metric's exclusive value is the inclusive one minus those of the children", result), ("a leaf has its inclusive value", leaves), ("only generated columns change", others), ("the exclusive metrics are those there were and the generated ones", listed),
                       ("tables that were there are unchanged", lambda c: Exc(c).frame()[0][1]), ("other graphframes keep their table", lambda c: Exc(c).frame()[1][1]),
                       ("other graphframes keep their metrics", lambda c: frame_field(c, "GraphFrame.exc", lambda g: g == c.p.self))],
              loops={0: inv(P, loop0), 1: inv(W, loop1),
                     2: inv(D, lambda c: done(c, c.seq, c.i)), 3: inv(D, lambda c: done(c, c.outer[-1].seq, c.outer[-1].i, lambda r: upto(c.seq, c.i, r))), 4: inv(A, adding),
                     5: inv(D, lambda c: done(c, c.seq, c.i)), 6: inv(A, adding)})
    sp.types = {"generation_pairs": Seq(PAIR), "new_data": Map(LABEL, CELL), "inc_sum": CELL}
    return sp


def round_trip(reg):
    """On trees, with exact numbers and no value missing: the exclusive value of an inclusive sum is the value summed.

    Inclusive values of a tree are the results of its subtrees (contract of subgraph_sum, proved by the check of P10)."""
    from .p10 import sub, inputs, family, subtree_def
    t0, t1, ix = z3.Const("t0", CELLS_S), z3.Const("t1", CELLS_S), z3.Const("index", INDEX_S)
    ch, a, b, r, n, k = z3.Const("ch", ChArr), z3.Const("time", COL_S), z3.Const("time_inc", COL_S), z3.Const("rest", REST_S), z3.Const("n0", NODE_S), z3.Int("k0")
    R = z3.RealSort()
    val, fold = fn("value_of_cell", CELL_S, R), fn("sum_of_rows", CELLS_S, COL_S, REST_S, SN_S, I, R)
    y_ = z3.Const("y", CELL_S)
    fs = lambda i: fold(t_, a_, r_, s_, i)
    u, fam, kids, S = inputs(SUM1, t0, ix, ch, a, n), family(ch, n), ch[n], lambda i: csum(t1, b, r, ch[n], i)
    all_ = agg(SUM1, series(t_, ix_, a_, r_, s_))
    exact = [FA([x_, y_], And(val(plus(x_, y_)) == val(x_) + val(y_)), patterns=[plus(x_, y_)]), FA([x_, y_], val(minus(x_, y_)) == val(x_) - val(y_), patterns=[minus(x_, y_)]),
             FA([q_], val(num(q_)) == z3.ToReal(q_), patterns=[num(q_)]), FA([x_], zeroed(x_) == x_, patterns=[zeroed(x_)]),
             FA([t_, a_, r_, s_], fs(0) == 0, patterns=[fs(0)]), FA([t_, a_, r_, s_, k_], Imp(And(0 <= k_, k_ < SN.len(s_)), fs(k_ + 1) == fs(k_) + val(cell(t_, a_, r_, SN.at(s_, k_)))), patterns=[MP(fs(k_), SN.at(s_, k_))]),
             FA([t_, ix_, a_, r_, s_], val(all_) == fold(t_, a_, r_, s_, SN.len(s_)), patterns=[all_])]
    base_ = SN.axioms() + theory() + exact + subtree_def(SUM1, t0, ix, ch) + [
        FA([m_], cell(t1, b, r, m_) == sub(SUM1, t0, ix, ch, a, r, m_), patterns=[cell(t1, b, r, m_)]), Not(SN.mem(kids, n))]
    # the rows summed are the node's own and those of its children
    rows = And(SN.len(fam) == SN.len(kids) + 1, SN.at(fam, z3.IntVal(0)) == n, FA([i_], Imp(And(0 <= i_, i_ < SN.len(kids)), SN.at(fam, i_ + 1) == SN.at(kids, i_)), patterns=[SN.at(kids, i_)]))
    P = lambda i: fold(u, a, r, fam, i + 1) == val(cell(t0, a, r, n)) + val(S(i))
    reg.lemma("round trip: the rows summed are those of the node and its children", lambda: (SN.axioms() + [fam == fam], rows))
    reg.lemma("round trip: the node's own value comes first", lambda: (base_ + [rows, fold(u, a, r, fam, 0) == 0], P(z3.IntVal(0))))
    reg.lemma("round trip: then the children's, one by one", lambda: (base_ + [rows, 0 <= k, k < SN.len(kids), P(k), SN.mem(kids, SN.at(kids, k)), SN.at(fam, k + 1) == SN.at(kids, k)], P(k + 1)))
    reg.lemma("round trip: the exclusive value is the original one", lambda: (base_ + [rows, SN.len(kids) >= 0, P(SN.len(kids))], val(minus(cell(t1, b, r, n), S(SN.len(kids)))) == val(cell(t0, a, r, n))))


def build():
    reg = base()
    pandas(reg)
    hooks(reg)
    reg.add(graph_traverse("frame", "traverse", trusted="proved by the check of P01"))
    reg.add(node_traverse("frame", "traverse", trusted="proved by the check of P01"))
    reg.add(generate())
    round_trip(reg)
    return reg
