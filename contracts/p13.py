"""P13: the query engine returns exactly the nodes on the paths that match the pattern."""
from .query import *

ROW = Sort("Row")
ROWS = SeqTheory(ROW)
SN_S = sort_of(NS_)
TAB_S, ROW_S = usort("DTable"), usort("Row")
row = fn("row_of", TAB_S, NODE_S, ROW_S)
multi = fn("has_rows_per_node", TAB_S, B)
concat = fn("row_concat", sort_of(Seq(ROW)), SN_S, sort_of(Seq(STR)), ROW_S)
accepts = fn("accepts", usort("Pred"), ROW_S, B)
SS = SeqTheory(STR)
STAR, DOT = (lambda: strlit("*")), (lambda: strlit("."))
STEP_S = sort_of(STEP)
quant, pred = (lambda s: STEP_S.accessor(0, 0)(s)), (lambda s: STEP_S.accessor(0, 1)(s))
NIL = SN.empty
run = fn("run_of", Q_S, TAB_S, NODE_S, I, SN_S, B)             # (query, table, node, element, path): the run of the element that starts at the node is the path
part = fn("partial_match", Q_S, TAB_S, NODE_S, I, I, SN_S, B)  # (query, table, start, first element, element, path): the path matches the elements from the first one up to before this one
s_, t_ = z3.Consts("s t", SN_S)
one = lambda n: SN.app(NIL, n)
front_of = lambda n, s: SN.cat(one(n), s)
last = lambda s: SN.at(s, SN.len(s) - 1)


def shown(d, n):
    """What a predicate is given for a node."""
    return If(multi(d), concat(ROWS.app(ROWS.empty, row(d, n)), one(n), SS.app(SS.empty, strlit("node"))), row(d, n))


class M(Eng):
    """The meaning of a pattern on a graph and a table."""

    def __init__(self, c):
        super().__init__(c)
        self.q, self.d = c.p.query, getattr(c.p, "dframe")
        self.pat = c.h0.pattern(self.q)
        self.L = PT.len(self.pat)

    def S(self, k, n):
        return And(0 <= k, k < self.L, sat(self.q, k, n))

    def star(self, k):
        return quant(PT.at(self.pat, k)) == STAR()

    def R(self, n, k, s):
        return run(self.q, self.d, n, k, s)

    def P(self, r, k0, k, s):
        return part(self.q, self.d, r, k0, k, s)

    def child(self, n, c):
        return SN.mem(self.ch[n], c)

    def leaf(self, n):
        return SN.len(self.ch[n]) == 0

    def definitions(self):
        """Satisfying, runs and partial matches, by unfolding."""
        q, d, L = self.q, self.d, self.L
        k, k0 = z3.Ints("k k0")
        x, r, c = z3.Consts("x r c", NODE_S)
        S, R, P = self.S, self.R, self.P
        nxt = fn("run_child", Q_S, TAB_S, NODE_S, I, SN_S, NODE_S)(q, d, x, k, s_)
        rest = fn("run_rest", Q_S, TAB_S, NODE_S, I, SN_S, SN_S)(q, d, x, k, s_)
        deep = And(Not(S(k + 1, x)), S(k, x), Not(self.leaf(x)))
        yield FA([i_, n_], sat(q, i_, n_) == accepts(pred(PT.at(self.pat, i_)), shown(d, n_)), patterns=[sat(q, i_, n_)])
        yield FA([x, k, s_], Imp(R(x, k, s_), If(S(k + 1, x), s_ == NIL,
                                              If(S(k, x), If(self.leaf(x), And(k == L - 1, s_ == one(x)), And(self.child(x, nxt), R(nxt, k, rest), s_ == front_of(x, rest))),
                                                 And(k == L - 1, s_ == NIL)))), patterns=[R(x, k, s_)])
        yield FA([x, k], Imp(Or(S(k + 1, x), And(Not(S(k, x)), k == L - 1)), R(x, k, NIL)), patterns=[R(x, k, NIL)])
        yield FA([x, k], Imp(And(Not(S(k + 1, x)), S(k, x), self.leaf(x), k == L - 1), R(x, k, one(x))), patterns=[R(x, k, one(x))])
        yield FA([x, c, k, s_], Imp(And(deep, self.child(x, c), R(c, k, s_)), R(x, k, front_of(x, s_))), patterns=[MP(self.child(x, c), R(c, k, s_), R(x, k, front_of(x, s_))), MP(self.child(x, c), front_of(x, s_), R(c, k, s_))])
        # partial matches; a path that starts with a "." element has matched it, one that starts a run may go on
        yield FA([k], self.first(k) == If(self.star(k), k, k + 1), patterns=[self.first(k)])
        pre = fn("match_before", Q_S, TAB_S, NODE_S, I, I, SN_S, SN_S)(q, d, r, k0, k, s_)
        suf = fn("match_added", Q_S, TAB_S, NODE_S, I, I, SN_S, SN_S)(q, d, r, k0, k, s_)
        k2 = z3.Int("k2")
        yield FA([r, k0, s_], P(r, k0, k0, s_) == (s_ == one(r)), patterns=[P(r, k0, k0, s_)])
        yield FA([r, k0, k, k2, s_], Imp(And(k2 == k + 1, k0 <= k, P(r, k0, k2, s_)), And(P(r, k0, k, pre), self.added(k, last(pre), suf), s_ == SN.cat(pre, suf))), patterns=[MP(P(r, k0, k2, s_), PT.at(self.pat, k))])
        yield FA([r, k0, k, s_, t_], Imp(And(k0 <= k, P(r, k0, k, s_), self.added(k, last(s_), t_)), P(r, k0, k + 1, SN.cat(s_, t_))), patterns=[MP(P(r, k0, k, s_), SN.cat(s_, t_))])
        # what one element adds after a node
        c2 = fn("added_child", Q_S, TAB_S, I, NODE_S, SN_S, NODE_S)(q, d, k, x, s_)
        A = self.added
        yield FA([k, x, s_], Imp(A(k, x, s_), If(self.star(k), Or(And(self.leaf(x), s_ == NIL), And(self.child(x, c2), R(c2, k, s_))), And(self.child(x, c2), S(k, c2), s_ == one(c2)))), patterns=[A(k, x, s_)])
        yield FA([k, x], Imp(And(self.star(k), self.leaf(x)), A(k, x, NIL)), patterns=[A(k, x, NIL)])
        yield FA([k, x, c, s_], Imp(And(self.star(k), self.child(x, c), R(c, k, s_)), A(k, x, s_)), patterns=[MP(self.child(x, c), R(c, k, s_))])
        yield FA([k, x, c], Imp(And(Not(self.star(k)), self.child(x, c), S(k, c)), A(k, x, one(c))), patterns=[MP(self.child(x, c), A(k, x, one(c)))])

    def added(self, k, x, s):
        return fn("added_by", Q_S, TAB_S, I, NODE_S, SN_S, B)(self.q, self.d, k, x, s)

    def first(self, idx):
        return fn("first_left", sort_of(PAT), I, I)(self.pat, idx)

    def whole(self, r, s):
        """The path matches the whole pattern and starts at r."""
        return Or(And(self.S(0, r), self.P(r, self.first(0), self.L, s)), And(self.star(0), self.S(1, r), self.P(r, self.first(1), self.L, s)))

    def matching(self):
        """The nodes on the matches from a node."""
        p = fn("match_with", Q_S, TAB_S, NODE_S, NODE_S, SN_S)
        a, b = z3.Consts("a b", NODE_S)
        return [FA([a, b], Imp(onmatch(self.q, a, b), And(self.whole(a, p(self.q, self.d, a, b)), SN.mem(p(self.q, self.d, a, b), b))), patterns=[onmatch(self.q, a, b)]),
                FA([a, b, s_, i_], Imp(And(self.whole(a, s_), SN.mem(s_, b)), onmatch(self.q, a, b)), patterns=[MP(self.P(a, i_, self.L, s_), SN.mem(s_, b))])]


def all_in_graph(x, lists):
    return FA([s_, n_], Imp(And(LL.mem(lists, s_), SN.mem(s_, n_)), x.G(n_)), patterns=[MP(LL.mem(lists, s_), SN.mem(s_, n_))])


def m(c):
    c.names = ()
    return M(c)


CLOSED13 = [("the nodes of the graph have different numbers", lambda c: m(c).apart()), (CLOSED, closed)]
CACHE_OK = ("the cache is right", lambda c: m(c).cache_ok(c.p.query, MapView(c.h0, c.p.self), m(c).pat))
CACHE_OK1 = ("the cache is right", lambda c: m(c).cache_ok(c.p.query, MapView(c.h, c.p.self), m(c).pat))


def cache_grows(c):
    k = z3.Int("kc")
    return FA([k], Imp(MapView(c.h0, c.p.self).has(k), MapView(c.h, c.p.self).has(k)), patterns=[MapView(c.h0, c.p.self).has(k), MapView(c.h, c.p.self).has(k)])


GROWS = ("what is cached stays cached", cache_grows)
ENG = ("no other engine changes", lambda c: frame_field(c, "Engine.cache", lambda o: o == c.p.self))
KEEP = [CACHE_OK1, GROWS, ENG]
entry = lambda c: m(c).axioms() + list(m(c).definitions())


def cache_node():
    def inv(c):
        x, ms = m(c), c.v.matches
        if isinstance(ms, tuple):
            ms = SI.empty
        return FA([i_], SI.mem(ms, i_) == And(0 <= i_, i_ < c.i, sat(c.p.query, i_, c.p.node)), patterns=[SI.mem(ms, i_)])
    return Spec(ENGPY, "QueryEngine._cache_node", {"self": E, "node": N, "query": Q, "dframe": TABLE}, NONE, modifies=["Engine.cache"], ghost_params={"graph": G}, entry=entry,
                requires=[("the node is one of the graph", lambda c: m(c).G(c.p.node))] + CLOSED13 + [CACHE_OK],
                ensures=KEEP + [("the node is cached", lambda c: MapView(c.h, c.p.self).has(m(c).nid[c.p.node]))], loops={0: [("the positions so far", inv)]})


def result(c, what):
    """None if there is no such path, otherwise a list of exactly those paths."""
    none, lists = c.res
    return And(Imp(none, FA([s_], Not(what(s_)), patterns=[what(s_)])), Imp(Not(none), FA([s_], LL.mem(lists, s_) == what(s_), patterns=[LL.mem(lists, s_), what(s_)])))


def zero_or_more():
    what = lambda c: (lambda s: m(c).R(c.p.node, c.p.wcard_idx, s))

    def inv(c):
        x, ms, k = m(c), c.v.matches, c.p.wcard_idx
        if isinstance(ms, tuple):
            return FA([s_, i_], Imp(And(0 <= i_, i_ < c.i), Not(x.R(SN.at(c.seq, i_), k, s_))), patterns=[x.R(SN.at(c.seq, i_), k, s_)])
        w = fn("from_which_child", sort_of(LISTS), SN_S, SN_S, I)(ms, c.seq, s_)
        return And(FA([s_, i_], Imp(And(0 <= i_, i_ < c.i, x.R(SN.at(c.seq, i_), k, s_)), LL.mem(ms, s_)), patterns=[x.R(SN.at(c.seq, i_), k, s_)]),
                   FA([s_], Imp(LL.mem(ms, s_), z3.Exists([i_], And(0 <= i_, i_ < c.i, x.R(SN.at(c.seq, i_), k, s_)))), patterns=[LL.mem(ms, s_)]))

    def in_graph(c):
        ms = c.v.matches
        return z3.BoolVal(True) if isinstance(ms, tuple) else all_in_graph(m(c), ms)
    sp = Spec(ENGPY, "QueryEngine._match_0_or_more", {"self": E, "query": Q, "dframe": TABLE, "node": N, "wcard_idx": INT}, Opt(LISTS), modifies=["Engine.cache"], ghost_params={"graph": G}, entry=entry,
              requires=[("the node is one of the graph", lambda c: m(c).G(c.p.node)), ("the position is one of the pattern", lambda c: And(0 <= c.p.wcard_idx, c.p.wcard_idx < m(c).L))] + CLOSED13 + [CACHE_OK],
              ensures=[("exactly the runs from the node are returned", lambda c: result(c, what(c))), ("they are in the graph", lambda c: Imp(Not(c.res[0]), all_in_graph(m(c), c.res[1])))] + KEEP,
              loops={0: [("the runs from the first children", inv), ("they are in the graph", in_graph), CACHE_OK1, GROWS, ENG]})
    sp.ghost_args = {n: (lambda hc: {"graph": V(G, hc.gp.graph)}) for n in ("QueryEngine._cache_node", "QueryEngine._match_0_or_more")}
    return sp


def match_1():
    def what(c):
        x = m(c)
        return lambda s: z3.Exists([n_], And(x.child(c.p.node, n_), x.S(c.p.idx, n_), s == one(n_)))

    def post(c):
        x = m(c)
        none, lists = c.res
        return And(Imp(none, FA([n_], Imp(x.child(c.p.node, n_), Not(x.S(c.p.idx, n_))), patterns=[x.child(c.p.node, n_)])),
                   Imp(Not(none), And(FA([n_], Imp(And(x.child(c.p.node, n_), x.S(c.p.idx, n_)), LL.mem(lists, one(n_))), patterns=[x.child(c.p.node, n_)]),
                                      FA([s_], Imp(LL.mem(lists, s_), And(x.child(c.p.node, last(s_)), x.S(c.p.idx, last(s_)), s_ == one(last(s_)))), patterns=[LL.mem(lists, s_)]))))

    def inv(c):
        x, ms = m(c), c.v.matches
        if isinstance(ms, tuple):
            return FA([i_], Imp(And(0 <= i_, i_ < c.i), Not(x.S(c.p.idx, SN.at(c.seq, i_)))), patterns=[SN.at(c.seq, i_)])
        return And(FA([i_], Imp(And(0 <= i_, i_ < c.i, x.S(c.p.idx, SN.at(c.seq, i_))), LL.mem(ms, one(SN.at(c.seq, i_)))), patterns=[SN.at(c.seq, i_)]),
                   FA([s_], Imp(LL.mem(ms, s_), And(x.child(c.p.node, last(s_)), x.S(c.p.idx, last(s_)), s_ == one(last(s_)))), patterns=[LL.mem(ms, s_)]))
    sp = Spec(ENGPY, "QueryEngine._match_1", {"self": E, "query": Q, "dframe": TABLE, "node": N, "idx": INT}, Opt(LISTS), modifies=["Engine.cache"], ghost_params={"graph": G}, entry=entry,
              requires=[("the node is one of the graph", lambda c: m(c).G(c.p.node)), ("the position is one of the pattern", lambda c: And(0 <= c.p.idx, c.p.idx < m(c).L))] + CLOSED13 + [CACHE_OK],
              ensures=[("exactly the children that satisfy the element are returned", post)] + KEEP,
              loops={0: [("the first children", inv), CACHE_OK1, GROWS, ENG]})
    sp.ghost_args = {"QueryEngine._cache_node": lambda hc: {"graph": V(G, hc.gp.graph)}}
    return sp


def match_pattern():
    none_of = lambda o: OPT.accessor(0, 0)(o)
    some_of = lambda o: OPT.accessor(0, 1)(o)
    some = lambda s: OPT.constructor(0)(False, s)
    r = lambda c: c.p.pattern_root
    k0 = lambda c: m(c).first(c.p.match_idx)
    mem = lambda ls, s: LL.mem(ls, s)
    lists = lambda v: LL.empty if isinstance(v, tuple) else v

    def exactly(c):
        x, ms, k = m(c), lists(c.v.matches), c.v.pattern_idx
        return FA([s_], mem(ms, s_) == x.P(r(c), k0(c), k, s_), patterns=[mem(ms, s_), x.P(r(c), k0(c), k, s_)])

    def proper(v):
        """They are not empty, and in the graph."""
        return lambda c: And(all_in_graph(m(c), lists(getattr(c.v, v))), FA([s_], Imp(mem(lists(getattr(c.v, v)), s_), SN.len(s_) >= 1), patterns=[mem(lists(getattr(c.v, v)), s_)]))

    def sound(c):
        x, ms = m(c), lists(c.v.new_matches)
        return FA([s_], Imp(mem(ms, s_), x.P(r(c), k0(c), c.v.pattern_idx + 1, s_)), patterns=[mem(ms, s_)])

    def extended(c):
        x, ms, k = m(c), lists(c.v.new_matches), c.v.pattern_idx
        p = LL.at(c.seq, i_)
        return FA([i_, t_], Imp(And(0 <= i_, i_ < c.i, x.added(k, last(p), t_)), mem(ms, SN.cat(p, t_))), patterns=[MP(p, x.added(k, last(p), t_))])

    def children(c):
        x, sub, k = m(c), c.v.sub_match, c.v.pattern_idx
        ch = SN.at(c.seq, j_)
        return FA([j_, s_], Imp(And(0 <= j_, j_ < c.i, x.R(ch, k, s_)), OO.mem(sub, some(s_))), patterns=[x.R(ch, k, s_)])

    def subs(c):
        x, sub, k = m(c), c.v.sub_match, c.v.pattern_idx
        return FA([o_], Imp(And(OO.mem(sub, o_), Not(none_of(o_))), x.added(k, last(c.v.m), some_of(o_))), patterns=[OO.mem(sub, o_)])

    def subs_graph(c):
        x, sub = m(c), c.v.sub_match
        return FA([o_, n_], Imp(And(OO.mem(sub, o_), Not(none_of(o_)), SN.mem(some_of(o_), n_)), x.G(n_)), patterns=[MP(OO.mem(sub, o_), SN.mem(some_of(o_), n_))])

    def merged(c):
        ms = lists(c.v.new_matches)
        o = OO.at(c.seq, j_)
        return FA([j_], Imp(And(0 <= j_, j_ < c.i, Not(none_of(o))), mem(ms, SN.cat(c.v.m, some_of(o)))), patterns=[o])

    def grows(c):
        return FA([s_], Imp(mem(lists(c.l.new_matches), s_), mem(lists(c.v.new_matches), s_)), patterns=[mem(lists(c.l.new_matches), s_)])

    def prefixes(c):
        x, u, w = m(c), fn("prefix", SN_S, I, SN_S), fn("step_after", SN_S, I, SN_S)
        a, b = u(s_, i_), w(s_, i_)
        return FA([s_, i_], Imp(And(x.P(r(c), k0(c), x.L, s_), k0(c) <= i_, i_ < x.L), And(x.P(r(c), k0(c), i_, a), x.added(i_, last(a), b))), patterns=[MP(x.P(r(c), k0(c), x.L, s_), PT.at(x.pat, i_))])
    sp = Spec(ENGPY, "QueryEngine._match_pattern", {"self": E, "query": Q, "dframe": TABLE, "pattern_root": N, "match_idx": INT}, Opt(LISTS), modifies=["Engine.cache"], ghost_params={"graph": G},
              entry=lambda c: entry(c) + [prefixes(c)],
              requires=[("the node is one of the graph", lambda c: m(c).G(r(c))), ("the position is one of the pattern", lambda c: And(0 <= c.p.match_idx, c.p.match_idx < m(c).L)),
                        ("the pattern is usable", lambda c: usable_pattern(m(c).pat))] + CLOSED13 + [CACHE_OK],
              ensures=[("exactly the paths that match from there are returned", lambda c: result(c, lambda s: m(c).P(r(c), k0(c), m(c).L, s))), ("they are in the graph", lambda c: Imp(Not(c.res[0]), all_in_graph(m(c), c.res[1])))] + KEEP,
              loops={0: [("the position", lambda c: And(k0(c) <= c.v.pattern_idx, c.v.pattern_idx <= m(c).L)), ("exactly the matches so far", exactly), ("they are paths", proper("matches"))] + KEEP,
                     1: [("the element is one of the pattern", lambda c: And(c.v.pattern_idx < m(c).L, Or(quant(PT.at(m(c).pat, c.v.pattern_idx)) == STAR(), quant(PT.at(m(c).pat, c.v.pattern_idx)) == DOT()))), ("every match so far is extended", extended), ("only to matches", sound), ("they are paths", proper("new_matches"))] + KEEP,
                     2: [("the runs from the first children", children), ("only what the element adds", subs), ("they are in the graph", subs_graph)] + KEEP,
                     3: [("what was found stays", grows), ("the first extensions are there", merged), ("only matches", sound), ("they are paths", proper("new_matches"))]})
    sp.types = {"sub_match": Seq(Opt(NS_)), "new_matches": LISTS}
    sp.ghost_args = {n: (lambda hc: {"graph": V(G, hc.gp.graph)}) for n in ("QueryEngine._match_1", "QueryEngine._match_0_or_more")}
    return sp


def apply_impl():
    sp = apply_impl_spec()
    sp.entry = lambda c: entry(c) + m(c).matching() + [m(c).numbered_def()]

    def inv(what):
        def f(c):
            x = m(c)
            V0, V1 = x.V(c.p.visited), x.V(c.v.visited)
            new = lambda n: And(V1(n), Not(V0(n)))
            q, ms = c.p.query, c.v.matches
            if what == "the node is visited":
                return And(V1(c.p.node), Not(V0(c.p.node)))
            if what == "what was visited stays visited":
                k = z3.Int("kv")
                return FA([k], Imp(c.p.visited.has(k), c.v.visited.has(k)), patterns=[c.p.visited.has(k)])
            if what == "the first children are visited":
                return FA([j_], Imp(And(0 <= j_, j_ < c.i), V1(SN.at(c.seq, j_))), patterns=[SN.at(c.seq, j_)])
            if what == "the children of every other newly visited node are visited":
                return FA([n_, m_], Imp(And(x.G(n_), new(n_), n_ != c.p.node, SN.mem(x.ch[n_], m_)), V1(m_)), patterns=[MP(x.G(n_), SN.mem(x.ch[n_], m_))])
            if what == "only nodes of the graph are visited":
                return x.visited_ok(c.v.visited)
            if what == "what was found stays found":
                return FA([n_], Imp(found(c.p.matches, n_), found(ms, n_)), patterns=[found(c.p.matches, n_)])
            if what == "the nodes on matches from newly visited nodes are found":
                return FA([m_, n_], Imp(And(x.G(m_), new(m_), onmatch(q, m_, n_)), found(ms, n_)), patterns=[onmatch(q, m_, n_)])
            if what == "no other node is found":
                return FA([n_], Imp(And(found(ms, n_), Not(found(c.p.matches, n_))), z3.Exists([m_], And(x.G(m_), new(m_), onmatch(q, m_, n_), x.G(n_)))), patterns=[found(ms, n_)])
        return f
    names = ["the node is visited", "what was visited stays visited", "the first children are visited", "the children of every other newly visited node are visited", "only nodes of the graph are visited",
             "what was found stays found", "the nodes on matches from newly visited nodes are found", "no other node is found"]
    sp.loops = {0: [(w, inv(w)) for w in names] + [CACHE_OK1, ENG]}
    sp.ghost_args = {n: (lambda hc: {"graph": V(G, hc.gp.graph)}) for n in ("QueryEngine._match_pattern", "QueryEngine._cache_node", "QueryEngine._apply_impl")}
    return sp


class Any:
    """Some query, table and graph, for statements about the definitions alone."""

    def __init__(self):
        arr = {"Node.children": z3.Const("lemma_children", ChArr), "Node.nid": z3.Const("lemma_nid", z3.ArraySort(NODE_S, I))}
        self.names = ()
        self.p = type("P", (), {"query": z3.Const("lemma_query", Q_S), "dframe": z3.Const("lemma_table", TAB_S)})
        self.gp = type("P", (), {"graph": z3.Const("lemma_graph", usort("Graph"))})
        pat, roots = z3.Const("lemma_pattern", sort_of(PAT)), z3.Const("lemma_roots", O_S)
        self.h0 = type("H", (), {"pattern": staticmethod(lambda q: pat), "roots": staticmethod(lambda g: roots), "arr": staticmethod(lambda k: arr[k])})


def prefix_lemma():
    """The step of the (downward) induction behind the prefixes of a match."""
    x, r, t, k0, j = M(Any()), z3.Const("r0", NODE_S), z3.Const("t0", SN_S), z3.Int("k00"), z3.Int("j0")
    a, b = (fn(w, Q_S, TAB_S, NODE_S, I, I, SN_S, SN_S)(x.q, x.d, r, k0, j, t) for w in ("match_before", "match_added"))
    return list(x.definitions()) + [k0 <= j, j < x.L, x.P(r, k0, j + 1, t), PT.at(x.pat, j) == PT.at(x.pat, j), x.star(j) == x.star(j)], And(x.P(r, k0, j, a), x.added(j, last(a), b), t == SN.cat(a, b))


OPT = sort_of(Opt(NS_))
OO = SeqTheory(Opt(NS_))
o_ = z3.Const("o", OPT)


def table_rows(reg):
    """Assumed: what pandas returns for the index, the row of a node and a labelled row; predicates depend on what they are given alone."""
    def isinst(ex, args, kw, e):
        a = args[0]
        if a.t.k == "py" and isinstance(a.x, Builtin) and a.x.name == "index" and a.x.recv is not None and a.x.recv.t == TABLE and getattr(args[1].x, "name", "") == "pandas.MultiIndex":
            return V(BOOL, multi(a.x.recv.x))
        return None

    def item(ex, recv, args, kw, e):
        a = recv.x
        if isinstance(a, Builtin) and a.name == "loc" and a.recv is not None and a.recv.t == TABLE and args[0].t == N:
            return V(ROW, row(a.recv.x, args[0].x))
        from pyvc.core import Unsupported
        raise Unsupported("subscript at line %d" % ex.line)

    def cat(ex, args, kw, e):
        a, k, n = ex.read(args[0]), ex.read(kw["keys"]), ex.read(kw["names"])
        return V(ROW, concat(a.x, k.x, n.x))
    reg.externs["builtin:isinstance"] = isinst
    reg.methods[("py", "__getitem__")] = item
    reg.externs["pandas.concat"] = cat
    reg.methods[("Pred", "__call__")] = lambda ex, f, args, kw, e: V(BOOL, accepts(f.x, args[0].x))
    reg.externs["builtin:iter"] = lambda ex, args, kw, e: args[0] if args[0].t == PAT or (hasattr(args[0].x, "root") and ex.read(args[0]).t == PAT) else None
    reg.methods[("Q", "__iter__")] = lambda ex, v, args, kw, e: ex.iterate(ex.call_func(FuncVal(ex.find_method(front.module(QUERYPY).classes["Query"], "__iter__"), None, v), [], {}, e))


def grouped(ex, args, kw, e):
    """itertools.groupby: the elements without those that follow an equal one."""
    v = ex.to_seq(args[0])
    t = Tup(NS_, Sort("Group"))
    if v.t == T("emptyseq"):
        v = V(LISTS, LL.empty)
    ex.one_node_per_key(v.x)
    from pyvc.core import const
    r, th = const("groups", Seq(t)), SeqTheory(t)
    ex.seq_types.add(t)
    key = lambda x: sort_of(t).accessor(0, 0)(x)
    at = fn("group_of", sort_of(Seq(t)), SN_S, I)
    i = z3.Int("i")
    ex.fact(FA([i], Imp(And(0 <= i, i < th.len(r)), LL.mem(v.x, key(th.at(r, i)))), patterns=[th.at(r, i)]))
    ex.fact(FA([s_], Imp(LL.mem(v.x, s_), And(0 <= at(r, s_), at(r, s_) < th.len(r), key(th.at(r, at(r, s_))) == s_)), patterns=[LL.mem(v.x, s_)]))
    return V(Seq(t), r)


def build():
    reg = base()
    query_classes(reg)
    engine_class(reg)
    table_rows(reg)
    reg.externs["itertools.groupby"] = grouped
    reg.add(cache_node())
    reg.add(zero_or_more())
    reg.add(match_1())
    reg.add(match_pattern())
    reg.add(apply_impl())
    reg.lemma("a match of some elements has a prefix that matches all but the last of them", prefix_lemma)
    from .p14 import combine, engine_apply, text_constructors
    text_constructors(reg)
    for k in COMPOUND:
        sp = combine(k)
        sp.trusted = "proved by the check of P14"
        reg.add(sp)
    engine_apply(reg)
    return reg
