"""Queries as seen by the contracts: one class Q for everything that can be given as a query, told apart by its kind."""
from .trav import *
from pyvc.exec import FuncVal, ClassVal, ModuleVal, Builtin
from pyvc import front

Q, PRED, TABLE = Ref("Q"), Sort("Pred"), Sort("DTable")
Q_S = sort_of(Q)
QS = SeqTheory(Q)
STEP = Tup(STR, PRED)
PAT = Seq(STEP)
STEP_S = sort_of(STEP)
PT = SeqTheory(STEP)
LISTS = Seq(NS_)
LL = SeqTheory(NS_)
QUERYPY, COMPPY, ENGPY, COMPATPY, INITPY = ("hatchet/query/%s.py" % x for x in ("query", "compound", "engine", "compat", "__init__"))
OBJPY, TEXTPY = "hatchet/query/object_dialect.py", "hatchet/query/string_dialect.py"
KINDS = ("Query", "ConjunctionQuery", "DisjunctionQuery", "ExclusiveDisjunctionQuery", "NegationQuery", "AndQuery", "OrQuery", "XorQuery", "NotQuery", "QueryMatcher", "list", "str", "tuple", "other")
COMPOUND, OLD = KINDS[1:5], KINDS[5:10]
kind_ = fn("kind", Q_S, I)
stands = fn("stands_for", Q_S, usort("Meaning"))
holds = fn("holds", usort("Meaning"), NODE_S, B)
sem = lambda q, n: holds(stands(q), n)       # the nodes a query stands for
parts = fn("tuple_elements", Q_S, sort_of(Seq(Q)))
meant = fn("queries_meant", sort_of(Seq(Q)), sort_of(Seq(Q)))
parity = fn("parity", sort_of(LISTS), I, NODE_S, B)
qparity = fn("query_parity", sort_of(Seq(Q)), I, NODE_S, B)
q_, r_ = z3.Consts("q r", Q_S)


def kind(q, *names):
    return Or(*[kind_(q) == KINDS.index(n) for n in names])


new_style = lambda q: kind(q, "Query", *COMPOUND)
usable = lambda q: kind(q, "Query", "list", "str", *COMPOUND)


def same(a, b):
    return stands(a) == stands(b)


def combined(k, ps, n):
    """n is in the combination of the kind k of the queries ps."""
    cnt = QS.len(ps)
    if k in ("ConjunctionQuery", "AndQuery"):
        return FA([i_], Imp(And(0 <= i_, i_ < cnt), sem(QS.at(ps, i_), n)), patterns=[QS.at(ps, i_)])
    if k in ("DisjunctionQuery", "OrQuery"):
        return z3.Exists([i_], And(0 <= i_, i_ < cnt, sem(QS.at(ps, i_), n)))
    if k in ("ExclusiveDisjunctionQuery", "XorQuery"):
        return qparity(ps, cnt, n)
    return Not(sem(QS.at(ps, 0), n))


def parity_def(par, at, holds, s):
    return [FA([s, n_], Not(par(s, 0, n_)), patterns=[par(s, 0, n_)]),
            FA([s, i_, n_], Imp(0 <= i_, par(s, i_ + 1, n_) == z3.Xor(par(s, i_, n_), holds(at(s, i_), n_))), patterns=[par(s, i_ + 1, n_)]),
            FA([s, i_, n_], Imp(0 <= i_, par(s, i_ + 1, n_) == z3.Xor(par(s, i_, n_), holds(at(s, i_), n_))), patterns=[MP(par(s, i_, n_), at(s, i_))])]


def parity_agree(s, qs, k, n):
    """Lists and queries with the same members have the same parity."""
    d = fn("differ_at", sort_of(LISTS), sort_of(Seq(Q)), I, NODE_S, I)(s, qs, k, n)
    return And(0 <= k, Imp(And(0 <= d, d < k), SN.mem(LL.at(s, d), n) == sem(QS.at(qs, d), n)))


def parity_lemma():
    s, qs = z3.Const("ss", sort_of(LISTS)), z3.Const("qs", sort_of(Seq(Q)))
    return FA([s, qs, i_, n_], Imp(parity_agree(s, qs, i_, n_), parity(s, i_, n_) == qparity(qs, i_, n_)), patterns=[MP(parity(s, i_, n_), qparity(qs, i_, n_))])


def parity_lemmas(reg):
    """The induction behind parity_lemma: its base and its step."""
    s, qs, k, n = z3.Const("ss0", sort_of(LISTS)), z3.Const("qs0", sort_of(Seq(Q))), z3.Int("k0"), z3.Const("n0", NODE_S)
    agree = lambda k: FA([i_], Imp(And(0 <= i_, i_ < k), SN.mem(LL.at(s, i_), n) == sem(QS.at(qs, i_), n)), patterns=[LL.at(s, i_)])
    reg.lemma("equal members have equal parity: base", lambda: (parities(), parity(s, 0, n) == qparity(qs, 0, n)))
    reg.lemma("equal members have equal parity: step", lambda: (parities() + [0 <= k, Imp(agree(k), parity(s, k, n) == qparity(qs, k, n)), agree(k + 1), LL.at(s, k) == LL.at(s, k)], parity(s, k + 1, n) == qparity(qs, k + 1, n)))


def meant_def():
    """A tuple given as the one argument stands for its elements."""
    s = z3.Const("qs", sort_of(Seq(Q)))
    return [FA([s], meant(s) == If(And(QS.len(s) == 1, kind(QS.at(s, 0), "tuple")), parts(QS.at(s, 0)), s), patterns=[meant(s)])]


def parities():
    return parity_def(parity, LL.at, SN.mem, z3.Const("ss", sort_of(LISTS))) + parity_def(qparity, QS.at, sem, z3.Const("qs", sort_of(Seq(Q))))


def is_a(ex, a, name):
    """The term for isinstance(a, name) and issubclass(type(a), name)."""
    if a.t != Q:
        return None
    classes = {"Query": ("Query",), "CompoundQuery": COMPOUND, "AbstractQuery": OLD, "NaryQuery": OLD[:4]}
    names = classes.get(name, (name,))
    if not all(n in KINDS for n in names):
        from pyvc.core import Unsupported
        raise Unsupported("isinstance of a query and %s" % name)
    return kind(a.x, *names)


def query_classes(reg):
    reg.cls("Q", QUERYPY, "Query", pattern=("query_pattern", PAT), subqueries=("subqueries", Seq(Q)), compat=("compat_subqueries", Seq(Q)), true=("true_query", Q))
    reg.nullable_fields = getattr(reg, "nullable_fields", ()) + ("Q.true",)
    reg.externs["builtin:isinstance_term"] = lambda ex, a, name, c: is_a(ex, a, name)
    reg.externs["builtin:type"] = lambda ex, args, kw, e: V(T("type"), args[0]) if args[0].t == Q else None
    reg.externs["builtin:issubclass"] = lambda ex, args, kw, e: V(BOOL, is_a(ex, args[0].x, args[1].x.cls.name)) if args[0].t == T("type") else None
    reg.externs["builtin:callable"] = lambda ex, args, kw, e: V(BOOL, z3.BoolVal(True)) if args[0].t == PRED else None
    # a tuple of queries given as the one argument
    reg.methods[("Q", "__iter__")] = lambda ex, v, args, kw, e: ex.iterate(V(Seq(Q), parts(v.x)))
    reg.axioms.append(lambda c: parities() + meant_def())
    reg.assumptions.append("the class of an object does not change, and the classes of queries have no subclasses besides those of hatchet (kind)")


def fresh_query(ex, k, facts):
    o = ex.alloc("Q")
    ex.fact(kind_(o.x) == KINDS.index(k)) if isinstance(k, str) else ex.fact(kind(o.x, *k))
    for f in facts(o.x):
        ex.fact(f)
    return o


def constructor(kindname, file, attr):
    """C(*queries): runs the __init__ under contract; the meaning of the new object is defined by its parts."""
    def h(ex, args, kw, e):
        o = fresh_query(ex, kindname, lambda q: [])
        m = front.module(file).classes[kindname]
        ex.call_func(FuncVal(ex.find_method(m, "__init__"), None, o), args, kw, e)
        ps = ex.hget("Q." + attr)[0][o.x]
        ex.fact(FA([n_], sem(o.x, n_) == combined(kindname, ps, n_), patterns=[sem(o.x, n_)]))
        return o
    return h


def text_constructors(reg):
    """A list or text stands for what the query built from it stands for."""
    def obj(ex, args, kw, e):
        return fresh_query(ex, "Query", lambda q: [same(q, args[0].x), usable_pattern(ex.hget("Q.pattern")[0][q])])

    def text(ex, args, kw, e):
        return fresh_query(ex, ("Query",) + COMPOUND, lambda q: [same(q, args[0].x)])
    reg.externs["new:ObjectQuery"] = obj
    reg.text_query = text
    reg.assumptions.append("ObjectQuery(list) and parse_string_dialect(text) return a new query that stands for what the list or text stands for (the conditions in them: P15, P16); errors they report are not followed")


def frame_q(c, key):
    return frame_field(c, key, lambda o: Not(c.h0.alive("Q", o)))


def others_unchanged(c, key, me):
    return frame_field(c, key, lambda o: Or(o == me, Not(c.h0.alive("Q", o))))


def alive_monotone(c, cls="Q"):
    o = z3.Const("o", usort(cls))
    return FA([o], Imp(c.h0.alive(cls, o), c.h.alive(cls, o)), patterns=[c.h0.alive(cls, o)])


# ---------------------------------------------------------------- the engine
E = Ref("Engine")
CACHE = Map(INT, Seq(INT))
SI = SeqTheory(INT)
found = fn("in_some_list", sort_of(LISTS), NODE_S, B)
onmatch = fn("on_a_match_from", Q_S, NODE_S, NODE_S, B)   # (query, start, node): the node lies on a path matching the pattern that starts at start
sat = fn("satisfies", Q_S, I, NODE_S, B)                  # (query, position, node): the node's row satisfies the predicate at the position


def engine_class(reg):
    reg.cls("Engine", ENGPY, "QueryEngine", cache=("search_cache", CACHE))


def found_def():
    s, i, n = z3.Const("ms", sort_of(LISTS)), i_, n_
    ix = fn("in_which_list", sort_of(LISTS), NODE_S, I)
    return [FA([s, i, n], Imp(And(0 <= i, i < LL.len(s), SN.mem(LL.at(s, i), n)), found(s, n)), patterns=[MP(SN.mem(LL.at(s, i), n), LL.len(s))]),
            FA([s, n], Imp(found(s, n), And(0 <= ix(s, n), ix(s, n) < LL.len(s), SN.mem(LL.at(s, ix(s, n)), n))), patterns=[found(s, n)])]


class Eng:
    """The symbols of an engine function: the graph is ghost where the function is not given it."""

    def __init__(self, c):
        g = getattr(c.p, "graph") if "graph" in c.names else c.gp.graph
        self.g, self.ch, self.r, self.nid = g, c.h0.arr("Node.children"), c.h0.roots(g), c.h0.arr("Node.nid")

    def G(self, n):
        return greach(self.ch, self.r, n)

    def apart(self):
        return FA([n_, m_], Imp(And(self.G(n_), self.G(m_), self.nid[n_] == self.nid[m_]), n_ == m_), patterns=[MP(self.G(n_), self.G(m_))])

    def axioms(self):
        return greach_axioms(self.ch, self.r) + found_def()

    def V(self, vis):
        return lambda n: vis.has(self.nid[n])

    def numbered(self, k):
        """A node of the graph with the number, if there is one."""
        return fn("numbered", z3.ArraySort(NODE_S, I), ChArr, O_S, I, NODE_S)(self.nid, self.ch, self.r, k)

    def numbered_def(self):
        who = self.numbered(self.nid[n_])
        return FA([n_], Imp(self.G(n_), And(self.G(who), self.nid[who] == self.nid[n_])), patterns=[MP(self.G(n_), self.nid[n_])])

    def visited_ok(self, vis):
        k = z3.Int("kv")
        who = self.numbered(k)
        return FA([k], Imp(vis.has(k), And(self.G(who), self.nid[who] == k)), patterns=[vis.has(k)])

    def in_graph(self, lists):
        return FA([n_], Imp(found(lists, n_), self.G(n_)), patterns=[found(lists, n_)])

    def cache_ok(self, q, cache, pattern):
        """What is cached for a node of the graph: the positions of the pattern whose predicates the node satisfies."""
        return FA([n_], Imp(And(self.G(n_), cache.has(self.nid[n_])), FA([i_], SI.mem(cache.get(self.nid[n_]), i_) == And(0 <= i_, i_ < PT.len(pattern), sat(q, i_, n_)), patterns=[SI.mem(cache.get(self.nid[n_]), i_)])), patterns=[cache.has(self.nid[n_])])


def well_built(c, h):
    """Every compound query was built by its constructor."""
    subs = h.arr("Q.subqueries")
    al = lambda o: And(h.alive("Q", o), o != null("Q"))
    return And(FA([q_], Imp(And(al(q_), kind(q_, *COMPOUND)), And(If(kind(q_, "NegationQuery"), QS.len(subs[q_]) == 1, QS.len(subs[q_]) >= 2),
                                                                   FA([i_], Imp(And(0 <= i_, i_ < QS.len(subs[q_])), And(usable(QS.at(subs[q_], i_)), al(QS.at(subs[q_], i_)))), patterns=[QS.at(subs[q_], i_)]))), patterns=[subs[q_]]),
               *[FA([q_, n_], Imp(And(al(q_), kind(q_, k)), sem(q_, n_) == combined(k, subs[q_], n_)), patterns=[MP(subs[q_], sem(q_, n_))]) for k in COMPOUND])


def usable_pattern(p):
    """A pattern has a step, and its quantifiers are . and *."""
    w = lambda i: STEP_S.accessor(0, 0)(PT.at(p, i))
    return And(PT.len(p) >= 1, FA([i_], Imp(And(0 <= i_, i_ < PT.len(p)), Or(w(i_) == strlit("."), w(i_) == strlit("*"))), patterns=[PT.at(p, i_)]))


def patterns_ok(c, h):
    """Every plain query has a usable pattern."""
    return FA([q_], Imp(And(h.alive("Q", q_), kind(q_, "Query")), usable_pattern(c.h0.pattern(q_))), patterns=[c.h0.pattern(q_)])


def apply_spec(trusted=None):
    def e(c):
        c.names = ("graph",)
        return Eng(c)

    def plain(c):
        """What a plain query stands for: the nodes on its matches."""
        x = e(c)
        st = fn("starts_at", Q_S, NODE_S, NODE_S)
        return [FA([q_, n_], Imp(And(kind(q_, "Query"), sem(q_, n_)), And(x.G(st(q_, n_)), onmatch(q_, st(q_, n_), n_))), patterns=[sem(q_, n_)]),
                FA([q_, m_, n_], Imp(And(kind(q_, "Query"), x.G(m_), onmatch(q_, m_, n_)), sem(q_, n_)), patterns=[onmatch(q_, m_, n_)])]

    def pigeonhole(c):
        """As many numbers as nodes, when different nodes have different numbers."""
        from .p01 import graph_out
        x, s, k = e(c), z3.Const("si", sort_of(Seq(INT))), z3.Int("kv")
        c2 = C_like(c, {"self": c.p.graph})
        all_there = FA([n_], Imp(x.G(n_), SI.mem(s, x.nid[n_])), patterns=[x.G(n_)])
        all_numbers = FA([k], Imp(SI.mem(s, k), z3.Exists([n_], And(x.G(n_), x.nid[n_] == k))), patterns=[SI.mem(s, k)])
        dist = FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < SI.len(s)), SI.at(s, i_) != SI.at(s, j_)), patterns=[MP(SI.at(s, i_), SI.at(s, j_))])
        return [FA([s], Imp(And(dist, all_there, all_numbers, x.apart()), SI.len(s) == SN.len(graph_out(c2))), patterns=[SI.len(s)])]

    def inv(what):
        def f(c):
            x = e(c)
            vis, ms = c.v.visited, c.v.matches
            empty_vis = vis is None
            if isinstance(ms, tuple):
                ms = LL.empty
            V = (lambda n: z3.BoolVal(False)) if empty_vis else x.V(vis)
            if what == "first":
                return FA([j_], Imp(And(0 <= j_, j_ < c.i), V(SN.at(c.seq, j_))), patterns=[SN.at(c.seq, j_)])
            if what == "closed":
                return FA([n_, m_], Imp(And(x.G(n_), V(n_), SN.mem(x.ch[n_], m_)), V(m_)), patterns=[MP(x.G(n_), SN.mem(x.ch[n_], m_))])
            if what == "numbers":
                return z3.BoolVal(True) if empty_vis else x.visited_ok(vis)
            if what == "sound":
                st = z3.Const("start", NODE_S)
                return FA([n_], Imp(found(ms, n_), And(x.G(n_), sem(c.p.query, n_))), patterns=[found(ms, n_)])
            if what == "complete":
                return FA([m_, n_], Imp(And(x.G(m_), V(m_), onmatch(c.p.query, m_, n_)), found(ms, n_)), patterns=[onmatch(c.p.query, m_, n_)])
            if what == "cache":
                return x.cache_ok(c.p.query, MapView(c.h, c.p.self), c.h0.pattern(c.p.query))
        return f

    def subres(c):
        x = e(c)
        rs, subs = c.v.results, c.seq
        if isinstance(rs, tuple):
            return z3.BoolVal(True)
        return And(LL.len(rs) == c.i, FA([i_], Imp(And(0 <= i_, i_ < c.i), And(FA([n_], Imp(x.G(n_), SN.mem(LL.at(rs, i_), n_) == sem(QS.at(subs, i_), n_)), patterns=[SN.mem(LL.at(rs, i_), n_), x.G(n_)]),
                                                                              FA([n_], Imp(SN.mem(LL.at(rs, i_), n_), x.G(n_)), patterns=[SN.mem(LL.at(rs, i_), n_)]))), patterns=[LL.at(rs, i_), QS.at(subs, i_)]))
    engine_frame = lambda c: frame_field(c, "Engine.cache", lambda o: o == c.p.self)
    sp = Spec(ENGPY, "QueryEngine.apply", {"self": E, "query": Q, "graph": G, "dframe": TABLE}, NS_, modifies=["Engine.cache", "alloc:Q"], trusted=trusted,
              requires=[("the nodes of the graph have different numbers", lambda c: e(c).apart()), (CLOSED, closed), ("combined queries were built by their constructors", lambda c: well_built(c, c.h0)),
                        ("plain queries have usable patterns", lambda c: patterns_ok(c, c.h0))],
              entry=lambda c: e(c).axioms() + plain(c) + pigeonhole(c) + [parity_lemma()],
              raises={"TypeError": lambda c: Not(new_style(c.p.query))},
              ensures=[("exactly the nodes the query stands for are returned", lambda c: FA([n_], Imp(e(c).G(n_), SN.mem(c.res, n_) == sem(c.p.query, n_)), patterns=[SN.mem(c.res, n_), e(c).G(n_)])),
                       ("they are nodes of the graph", lambda c: FA([n_], Imp(SN.mem(c.res, n_), e(c).G(n_)), patterns=[SN.mem(c.res, n_)])),
                       ("each node is returned once", lambda c: distinct(c.res)),
                       ("combined queries are as built by their constructors", lambda c: well_built(c, c.h)), ("objects stay alive", alive_monotone), ("no other engine changes", engine_frame),
                       ("plain queries have usable patterns", lambda c: patterns_ok(c, c.h))],
              loops={0: [(w, inv(w)) for w in ("first", "closed", "numbers", "sound", "complete", "cache")] + [("engine", engine_frame)],
                     1: [("the results so far", subres), ("objects stay alive", alive_monotone), ("engine", engine_frame), ("combined queries", lambda c: well_built(c, c.h)),
                         ("plain queries have usable patterns", lambda c: patterns_ok(c, c.h))]})

    def hint(hc):
        x = e(hc)
        vis = x.V(hc.v.visited)
        return greach_induction(x.ch, x.r, lambda n: And(x.G(n), vis(n)))
    sp.call_hints = {"Graph.__len__": hint}
    sp.ghost_args = {"QueryEngine._apply_impl": lambda hc: {"graph": V(G, hc.p.graph)}}
    return sp


class C_like:
    """The context c with other arguments."""

    def __init__(self, c, p):
        self.__dict__.update(c.__dict__)
        self.p = type("P", (), dict(p))


class MapView:
    """The cache of an engine as a dictionary content."""

    def __init__(self, h, o):
        m = h.cache(o)
        self.has, self.get = m.has, m.get


def apply_impl_spec(trusted=None):
    def e(c):
        c.names = ()
        return Eng(c)
    q = lambda c: c.p.query
    pat = lambda c: c.h0.pattern(q(c))

    def post(what):
        def f(c):
            x = e(c)
            V0, V1 = x.V(c.p.visited), x.V(c.o.visited)
            new = lambda n: And(V1(n), Not(V0(n)))
            if what == "the node is visited":
                return V1(c.p.node)
            if what == "what was visited stays visited":
                k = z3.Int("kv")
                return FA([k], Imp(c.p.visited.has(k), c.o.visited.has(k)), patterns=[c.p.visited.has(k)])
            if what == "the children of every newly visited node are visited":
                return FA([n_, m_], Imp(And(x.G(n_), new(n_), SN.mem(x.ch[n_], m_)), V1(m_)), patterns=[MP(x.G(n_), SN.mem(x.ch[n_], m_))])
            if what == "only nodes of the graph are visited":
                return x.visited_ok(c.o.visited)
            if what == "what was found stays found":
                return FA([n_], Imp(found(c.p.matches, n_), found(c.o.matches, n_)), patterns=[found(c.p.matches, n_)])
            if what == "the nodes on matches from newly visited nodes are found":
                return FA([m_, n_], Imp(And(x.G(m_), new(m_), onmatch(q(c), m_, n_)), found(c.o.matches, n_)), patterns=[onmatch(q(c), m_, n_)])
            if what == "no other node is found":
                st = fn("newly_starts_at", sort_of(LISTS), sort_of(LISTS), NODE_S, NODE_S)(c.p.matches, c.o.matches, n_)
                return FA([n_], Imp(And(found(c.o.matches, n_), Not(found(c.p.matches, n_))), z3.Exists([m_], And(x.G(m_), new(m_), onmatch(q(c), m_, n_), x.G(n_)))), patterns=[found(c.o.matches, n_)])
            if what == "the cache is right":
                return x.cache_ok(q(c), MapView(c.h, c.p.self), pat(c))
        return f
    names = ["the node is visited", "what was visited stays visited", "the children of every newly visited node are visited", "only nodes of the graph are visited", "what was found stays found",
             "the nodes on matches from newly visited nodes are found", "no other node is found", "the cache is right"]
    return Spec(ENGPY, "QueryEngine._apply_impl", {"self": E, "query": Q, "dframe": TABLE, "node": N, "visited": Set(INT), "matches": LISTS}, NONE, modifies=["Engine.cache", "param:visited", "param:matches"], trusted=trusted,
                ghost_params={"graph": G},
                requires=[("the node is one of the graph", lambda c: e(c).G(c.p.node)), ("the nodes of the graph have different numbers", lambda c: e(c).apart()), (CLOSED, closed),
                          ("the query is a plain one with a usable pattern", lambda c: And(kind(q(c), "Query"), usable_pattern(pat(c)))), ("only nodes of the graph are visited", lambda c: e(c).visited_ok(c.p.visited)),
                          ("the cache is right", lambda c: e(c).cache_ok(q(c), MapView(c.h0, c.p.self), pat(c)))],
                ensures=[(w, post(w)) for w in names] + [("no other engine changes", lambda c: frame_field(c, "Engine.cache", lambda o: o == c.p.self))])
