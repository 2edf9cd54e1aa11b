"""P10: inclusive metrics are sums over each node's descendants, once each; the subtree variant adds up the children's results."""
from .table import *
from .p01 import is_tree_spec, is_tree_def

sub = fn("subtree_result", AGG_S, CELLS_S, INDEX_S, ChArr, COL_S, REST_S, NODE_S, CELL_S)
inputs = fn("subtree_inputs", AGG_S, CELLS_S, INDEX_S, ChArr, COL_S, NODE_S, CELLS_S)
f_ = z3.Const("f", AGG_S)


def family(ch, n):
    """The node and its children, as the code lists them: [node] + node.children."""
    return SN.cat(SN.app(SN.empty, n), ch[n])


def subtree_def(f, t, ix, ch):
    """Definition of the subtree result: a leaf's own value; otherwise the aggregate of the node's value and its children's results."""
    u = lambda c, n: inputs(f, t, ix, ch, c, n)
    s = lambda c, r, n: sub(f, t, ix, ch, c, r, n)
    return [FA([a_, n_, b_, r_, m_], cell(u(a_, n_), b_, r_, m_) == If(m_ == n_, cell(t, a_, r_, n_), s(a_, r_, m_)), patterns=[cell(u(a_, n_), b_, r_, m_)]),
            FA([a_, r_, n_], s(a_, r_, n_) == If(SN.len(ch[n_]) == 0, cell(t, a_, r_, n_), agg(f, series(u(a_, n_), ix, a_, r_, family(ch, n_)))), patterns=[s(a_, r_, n_)])]


class Sums:
    def __init__(self, c):
        self.c = c
        self.df = c.h0.dataframe(c.p.self)
        self.t0, self.ix = c.h0.cells(self.df), c.h0.rows(self.df)
        self.ch, self.g = c.h0.arr("Node.children"), c.h0.graph(c.p.self)
        self.roots = c.h0.roots(self.g)
        self.cols = c.p.columns
        self.out = c.p.out_columns if c.given("out_columns") else c.p.columns

    def reach(self, n):
        return greach(self.ch, self.roots, n)

    def i(self, k):
        return CS.at(self.cols, k)

    def o(self, k):
        return CS.at(self.out, k)

    def old(self, k, r, n):
        return cell(self.t0, self.i(k), r, n)

    def now(self, t, k, r, n):
        return cell(t, self.o(k), r, n)

    def order(self):
        d = Dfs(self.c, "frame")
        return d, d.LO(z3.BoolVal(False), EMPTY, SN.empty, d.sorted(self.roots), SN.len(d.sorted(self.roots)))

    def total(self, n):
        """The sequence of the nodes that n reaches."""
        d = Dfs(self.c, "frame")
        return fn("descendants", ChArr, *[k.sort() for k in d.ks], NODE_S, SN_S)(self.ch, *d.ks, n)

    def total_def(self):
        return FA([n_], self.total(n_) == Dfs(self.c, "frame").O(z3.BoolVal(True), EMPTY, SN.empty, n_), patterns=[self.total(n_)])

    def rng(self, k):
        return And(0 <= k, k < CS.len(self.cols))

    def columns_of(self, f, t, rest=True):
        """FA k, r, n: f(k, r, n), where the cell of column k is looked at."""
        return FA([k_, r_, n_], Imp(self.rng(k_), f(k_, r_, n_)), patterns=[self.now(t, k_, r_, n_)])

    def others(self, t):
        x = cell(t, a_, r_, n_)
        return FA([a_, r_, n_], Imp(Not(CS.mem(self.out, a_)), x == cell(self.t0, a_, r_, n_)), patterns=[x, cell(self.t0, a_, r_, n_)])


def requires(tree=True):
    def distinct_cols(c):
        s = Sums(c)
        return FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < CS.len(s.out)), s.o(i_) != s.o(j_)), patterns=[MP(s.o(i_), s.o(j_))])

    def rows(c):
        s = Sums(c)
        return FA([n_], Imp(s.reach(n_), has_row(s.ix, some_row(s.ix, n_), n_)), patterns=[s.reach(n_), some_row(s.ix, n_)])
    return [("as many output as input columns", lambda c: CS.len(Sums(c).out) == CS.len(Sums(c).cols)),
            ("output columns are listed once", distinct_cols),
            ("every node has a row", rows),
            ("the graph has no cycles", lambda c: acyclic(Sums(c).ch)),
            ]


def entry(c):
    s = Sums(c)
    return definitions() + greach_axioms(s.ch, s.roots) + acyclic_def(s.ch)



def entry_sum(c):
    s = Sums(c)
    return entry(c) + subtree_def(c.p.function, s.t0, s.ix, s.ch)


PARAMS = {"self": GF, "columns": COLS, "out_columns": COLS, "function": AGG}
VIEWS = {"in place": {"out_columns": None}, "given columns": {}}


def init_columns():
    def started(c):
        s = Sums(c)
        t = c.h.cells(s.df)
        return s.columns_of(lambda k, r, n: s.now(t, k, r, n) == s.old(k, r, n), t)

    def inv(c):
        s = Sums(c)
        t = c.h.cells(s.df)
        return FA([k_, r_, n_], Imp(And(0 <= k_, k_ < c.i), s.now(t, k_, r_, n_) == s.old(k_, r_, n_)), patterns=[s.now(t, k_, r_, n_)])
    return Spec(GFPY, "GraphFrame._init_sum_columns", {k: v for k, v in PARAMS.items() if k != "function"}, COLS, views=VIEWS, modifies=["DataFrame.cells"], entry=entry,
                requires=requires()[:2],
                ensures=[("the output columns start as the input columns", started), ("other columns are unchanged", lambda c: Sums(c).others(c.h.cells(Sums(c).df))),
                         ("gives the names of the output columns", lambda c: c.res == Sums(c).out), ("other tables are unchanged", lambda c: frame_field(c, "DataFrame.cells", lambda d: d == Sums(c).df))],
                loops={0: [("the first columns are copied", inv), ("other columns are unchanged", lambda c: Sums(c).others(c.h.cells(Sums(c).df))), ("other tables are unchanged", lambda c: frame_field(c, "DataFrame.cells", lambda d: d == Sums(c).df))]})


def subtree_sum():
    def result(c):
        s = Sums(c)
        t = c.h.cells(s.df)
        return s.columns_of(lambda k, r, n: s.now(t, k, r, n) == If(And(s.reach(n), has_row(s.ix, r, n)), sub(c.p.function, s.t0, s.ix, s.ch, s.i(k), r, n), s.old(k, r, n)), t)

    def state(c, i, here=None):
        """Nodes before position i are done; at the node itself, the cells for which here(k, r) holds."""
        s = Sums(c)
        t = c.h.cells(s.df)
        d, seq = s.order()
        x = SN.at(seq, j_)
        S = lambda k, r, n: sub(c.p.function, s.t0, s.ix, s.ch, s.i(k), r, n)
        new = lambda k, r, n, done: s.now(t, k, r, n) == If(And(done, has_row(s.ix, r, n)), S(k, r, n), s.old(k, r, n))
        done = lambda k, r: Or(j_ < i, And(j_ == i, here(k, r))) if here else j_ < i
        return [("nodes are done one by one", FA([k_, r_, j_], Imp(And(s.rng(k_), 0 <= j_, j_ < SN.len(seq)), new(k_, r_, x, done(k_, r_))), patterns=[s.now(t, k_, r_, x)])),
                ("rows of other nodes keep their values", FA([k_, r_, n_], Imp(And(s.rng(k_), Not(SN.mem(seq, n_))), s.now(t, k_, r_, n_) == s.old(k_, r_, n_)), patterns=[s.now(t, k_, r_, n_)])),
                ("other columns are unchanged", s.others(t)), ("other tables are unchanged", frame_field(c, "DataFrame.cells", lambda d: d == s.df))]
    names = ["nodes are done one by one", "rows of other nodes keep their values", "other columns are unchanged", "other tables are unchanged"]
    RS = SeqTheory(REST)
    pos = lambda c: c.outer[0].i

    def at0(c):
        return state(c, c.i)

    def at1(c):
        return state(c, pos(c), lambda k, r: listed(c.seq, c.i, r))

    def listed(seq, upto, r):
        return z3.Exists([p_i], And(0 <= p_i, p_i < upto, RS.at(seq, p_i) == r))

    def at2(c):
        o = c.outer[1]
        return state(c, pos(c), lambda k, r: Or(listed(o.seq, o.i, r), And(r == RS.at(o.seq, o.i), k < c.i)))

    def at3(c):
        return state(c, pos(c), lambda k, r: k < c.i)
    p_i = z3.Int("before")
    inv = lambda f: [(n, lambda c, n=n: dict(f(c))[n]) for n in names]
    return Spec(GFPY, "GraphFrame.subtree_sum", PARAMS, NONE, views=VIEWS, modifies=["DataFrame.cells"], entry=entry_sum, requires=requires(),
                ensures=[("every node has the result of its subtree", result), ("other columns are unchanged", lambda c: Sums(c).others(c.h.cells(Sums(c).df))), ("other tables are unchanged", lambda c: frame_field(c, "DataFrame.cells", lambda d: d == Sums(c).df))],
                loops={0: inv(at0), 1: inv(at1), 2: inv(at2), 3: inv(at3)})


def subgraph_sum():
    def value(c, k, r, n):
        s = Sums(c)
        return agg(c.p.function, series(s.t0, s.ix, s.i(k), r, s.total(n)))

    def result(c):
        s = Sums(c)
        t = c.h.cells(s.df)
        tree = is_tree_def(c, s.g)
        there = lambda r, n: And(s.reach(n), has_row(s.ix, r, n))
        return And(Imp(tree, s.columns_of(lambda k, r, n: s.now(t, k, r, n) == If(there(r, n), sub(c.p.function, s.t0, s.ix, s.ch, s.i(k), r, n), s.old(k, r, n)), t)),
                   Imp(Not(tree), s.columns_of(lambda k, r, n: s.now(t, k, r, n) == If(there(r, n), value(c, k, r, n), s.old(k, r, n)), t)))

    def means(s, n):
        t = s.total(n)
        u, v = z3.Ints("u v")
        p, q = SN.at(t, u), SN.at(t, v)
        return And(FA([m_], Imp(SN.mem(t, m_), reach(s.ch, n, m_)), patterns=[SN.mem(t, m_)]), FA([m_], Imp(reach(s.ch, n, m_), SN.mem(t, m_)), patterns=[reach(s.ch, n, m_)]),
                   FA([u, v], Imp(And(0 <= u, u < v, v < SN.len(t)), p != q), patterns=[MP(p, q)]))

    def descendants(c):
        s = Sums(c)
        return Imp(Not(is_tree_def(c, s.g)), FA([n_], Imp(s.reach(n_), means(s, n_)), patterns=[s.total(n_)]))

    def entries(c):
        s = Sums(c)
        t, b, d = s.total(n_), *z3.Consts("b d", NODE_S)
        closed = And(SN.mem(t, n_), FA([b, d], Imp(And(SN.mem(t, b), SN.mem(s.ch[b], d)), SN.mem(t, d)), patterns=[MP(SN.mem(t, b), SN.mem(s.ch[b], d))]))
        return entry(c) + reach_axioms(s.ch) + [s.total_def(), FA([n_], Imp(closed, FA([b], Imp(reach(s.ch, n_, b), SN.mem(t, b)), patterns=[reach(s.ch, n_, b)])), patterns=[t])]

    def state(c, i, here=None):
        s = Sums(c)
        t = c.h.cells(s.df)
        seq = (c.outer[0] if c.outer else c).seq
        x = SN.at(seq, j_)
        new = lambda k, r, n, done: s.now(t, k, r, n) == If(And(done, has_row(s.ix, r, n)), value(c, k, r, n), s.old(k, r, n))
        done = lambda k, r: Or(j_ < i, And(j_ == i, here(k, r))) if here else j_ < i
        return [("nodes are done one by one", FA([k_, r_, j_], Imp(And(s.rng(k_), 0 <= j_, j_ < SN.len(seq)), new(k_, r_, x, done(k_, r_))), patterns=[s.now(t, k_, r_, x)])),
                ("rows of other nodes keep their values", FA([k_, r_, n_], Imp(And(s.rng(k_), Not(SN.mem(seq, n_))), s.now(t, k_, r_, n_) == s.old(k_, r_, n_)), patterns=[s.now(t, k_, r_, n_)])),
                ("what was summed over are the descendants", FA([j_], Imp(And(0 <= j_, j_ < i), means(s, x)), patterns=[x])),
                ("the graph is no tree", Not(is_tree_def(c, s.g))),
                ("other columns are unchanged", s.others(t)), ("other tables are unchanged", FA([o_], Imp(And(c.h0.alive("DataFrame", o_), o_ != s.df), c.h.arr("DataFrame.cells")[o_] == c.h0.arr("DataFrame.cells")[o_]), patterns=[c.h.arr("DataFrame.cells")[o_]])),
                ("tables made before are unchanged", FA([o_], Imp(o_ != s.df, c.h.arr("DataFrame.cells")[o_] == c.hl.arr("DataFrame.cells")[o_]), patterns=[c.h.arr("DataFrame.cells")[o_]]))]
    o_ = z3.Const("o", sort_of(DF))
    names = ["nodes are done one by one", "rows of other nodes keep their values", "what was summed over are the descendants", "the graph is no tree", "other columns are unchanged", "other tables are unchanged", "tables made before are unchanged"]
    RS, p_i = SeqTheory(REST), z3.Int("before")
    pos = lambda c: c.outer[0].i
    listed = lambda seq, upto, r: z3.Exists([p_i], And(0 <= p_i, p_i < upto, RS.at(seq, p_i) == r))
    at1 = lambda c: state(c, pos(c), lambda k, r: listed(c.seq, c.i, r))
    at2 = lambda c: state(c, pos(c), lambda k, r: Or(listed(c.outer[1].seq, c.outer[1].i, r), And(r == RS.at(c.outer[1].seq, c.outer[1].i), k < c.i)))
    inv = lambda f: [(n, lambda c, n=n: dict(f(c))[n]) for n in names]
    return Spec(GFPY, "GraphFrame.subgraph_sum", PARAMS, NONE, views=VIEWS, modifies=["DataFrame.cells", "DataFrame.rows", "alloc:DataFrame"], entry=entries, occ=True,
                requires=requires() + [("the table exists", lambda c: c.h0.alive("DataFrame", Sums(c).df))],
                ensures=[("every node has the aggregate over its descendants (in a tree: the result of its subtree)", result), ("what was summed over are the descendants, each once", descendants),
                         ("other columns are unchanged", lambda c: Sums(c).others(c.h.cells(Sums(c).df))),
                         ("other tables are unchanged", lambda c: FA([o_], Imp(And(c.h0.alive("DataFrame", o_), o_ != Sums(c).df), c.h.arr("DataFrame.cells")[o_] == c.h0.arr("DataFrame.cells")[o_]), patterns=[c.h.arr("DataFrame.cells")[o_]])),
                         ("row labels are unchanged", lambda c: FA([o_], Imp(c.h0.alive("DataFrame", o_), c.h.arr("DataFrame.rows")[o_] == c.h0.arr("DataFrame.rows")[o_]), patterns=[c.h.arr("DataFrame.rows")[o_]]))],
                loops={0: inv(lambda c: state(c, c.i)), 1: inv(at1), 2: inv(at2)})


incl_name = fn("inclusive_name", COL_S, COL_S)


def incl_def():
    x = a_
    return FA([x], incl_name(x) == If(str_test("endswith")(x, strlit("(exc)")), str_map("strip")(str_slice(None, -5)(x)), str_concat(x, strlit(" (inc)"))), patterns=[incl_name(x)])


class AllSums(Sums):
    """What update_inclusive_columns computes: the exclusive metrics summed into columns named after them."""
    def __init__(self, c):
        self.c = c
        self.df = c.h0.dataframe(c.p.self)
        self.t0, self.ix = c.h0.cells(self.df), c.h0.rows(self.df)
        self.ch, self.g = c.h0.arr("Node.children"), c.h0.graph(c.p.self)
        self.roots = c.h0.roots(self.g)
        self.cols = c.h0.exc(c.p.self)

    def o(self, k):
        return incl_name(self.i(k))

    def others(self, t):
        x = cell(t, a_, r_, n_)
        w = fn("metric_of", COL_S, sort_of(COLS), I)(a_, self.cols)
        return FA([a_, r_, n_], Or(And(self.rng(w), self.o(w) == a_), x == cell(self.t0, a_, r_, n_)), patterns=[x, cell(self.t0, a_, r_, n_)])


def update_columns():
    exc = lambda c: c.h0.exc(c.p.self)

    def inv(c):
        r = c.v.new_inc_metrics
        return And(CS.len(r) == c.i, FA([i_], Imp(And(0 <= i_, i_ < c.i), CS.at(r, i_) == incl_name(CS.at(exc(c), i_))), patterns=[CS.at(r, i_)]))

    def names(c):
        """The names of the inclusive metrics: the new ones and those there were."""
        s, now, old = AllSums(c), c.h.inc(c.p.self), c.h0.inc(c.p.self)
        k = fn("metric_of", COL_S, sort_of(COLS), I)(a_, s.cols)
        return And(FA([a_], Imp(CS.mem(now, a_), Or(CS.mem(old, a_), And(s.rng(k), s.o(k) == a_))), patterns=[CS.mem(now, a_)]), FA([a_], Imp(CS.mem(old, a_), CS.mem(now, a_)), patterns=[CS.mem(old, a_)]),
                   FA([i_], Imp(s.rng(i_), CS.mem(now, s.o(i_))), patterns=[CS.at(s.cols, i_)]))

    def result(c):
        s = AllSums(c)
        t, tree = c.h.cells(s.df), is_tree_def(c, s.g)
        there = lambda r, n: And(s.reach(n), has_row(s.ix, r, n))
        f = lambda k, r, n: s.now(t, k, r, n) == If(there(r, n), If(tree, sub(SUM1, s.t0, s.ix, s.ch, s.i(k), r, n), agg(SUM1, series(s.t0, s.ix, s.i(k), r, s.total(n)))), s.old(k, r, n))
        return FA([k_, r_, n_], Imp(s.rng(k_), f(k_, r_, n_)), patterns=[MP(CS.at(s.cols, k_), s.now(t, k_, r_, n_))])
    def entries(c):
        s = AllSums(c)
        return definitions() + greach_axioms(s.ch, s.roots) + acyclic_def(s.ch) + reach_axioms(s.ch) + [s.total_def(), incl_def()] + \
            [FA([k_], Imp(s.rng(k_), And(s.rng(w), s.o(w) == s.o(k_))), patterns=[w]) for w in [fn("metric_of", COL_S, sort_of(COLS), I)(s.o(k_), s.cols)]]

    def distinct_names(c):
        s = AllSums(c)
        return FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < CS.len(s.cols)), s.o(i_) != s.o(j_)), patterns=[MP(s.i(i_), s.i(j_))])

    def rows(c):
        s = AllSums(c)
        return FA([n_], Imp(s.reach(n_), has_row(s.ix, some_row(s.ix, n_), n_)), patterns=[s.reach(n_), some_row(s.ix, n_)])
    return Spec(GFPY, "GraphFrame.update_inclusive_columns", {"self": GF}, NONE, modifies=["GraphFrame.inc", "DataFrame.cells", "DataFrame.rows", "alloc:DataFrame"], entry=entries, occ=True,
                requires=[("the names of the inclusive metrics differ", distinct_names), ("every node has a row", rows), ("the graph has no cycles", lambda c: acyclic(AllSums(c).ch)), ("the table exists", lambda c: c.h0.alive("DataFrame", AllSums(c).df))],
                ensures=[("every node has the sum over its descendants of every exclusive metric", result), ("no other column changes", lambda c: AllSums(c).others(c.h.cells(AllSums(c).df))), ("the inclusive metrics are the new ones and those there were", names)],
                loops={0: [("the names so far", inv)]})


def build():
    reg = base()
    pandas(reg)
    sp = reg.add(graph_traverse("frame", "traverse", trusted="proved by the check of P01"))
    reg.add(node_traverse("frame", "traverse", trusted="proved by the check of P01"))
    reg.add(init_columns())
    reg.add(subtree_sum())
    reg.add(is_tree_spec("proved by the check of P01"))
    reg.add(subgraph_sum())
    reg.add(update_columns())
    return reg
