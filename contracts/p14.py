"""P14: combined queries combine the sets of matched nodes; patterns are the sequences of their steps."""
from .query import *

DOT, STAR, PLUS = (lambda x=x: strlit(x) for x in (".", "*", "+"))


# ---------------------------------------------------------------- building a pattern
def step(w, p):
    return pack(V(STEP, [V(STR, w), V(PRED, p)]))


def added(old, new, q, p, view):
    """The pattern new is the pattern old with the steps of one call added."""
    n = PT.len(old)
    keep = FA([i_], Imp(And(0 <= i_, i_ < n), PT.at(new, i_) == PT.at(old, i_)), patterns=[PT.at(new, i_), PT.at(old, i_)])
    if view == "count":
        return And(keep, PT.len(new) == n + If(q > 0, q, 0), FA([i_], Imp(And(n <= i_, i_ < PT.len(new)), PT.at(new, i_) == step(DOT(), p)), patterns=[PT.at(new, i_)]))
    return And(keep, If(q == PLUS(), And(PT.len(new) == n + 2, PT.at(new, n) == step(DOT(), p), PT.at(new, n + 1) == step(STAR(), p)), And(PT.len(new) == n + 1, PT.at(new, n) == step(q, p))))


def builder(name, quant, base, chained=True, raises=None):
    me = lambda c: c.p.self
    q = lambda c: getattr(c.p, quant)
    old, new = (lambda c: c.h0.pattern(me(c))), (lambda c: c.h.pattern(me(c)))
    r = {"AssertionError": lambda c: And(q(c) != DOT(), q(c) != STAR(), q(c) != PLUS()) if c.view == "text" else z3.BoolVal(False)}
    if raises:
        cond = raises
        r = {"InvalidQueryPath": cond, "AssertionError": lambda c: And(Not(cond(c)), q(c) != DOT(), q(c) != STAR(), q(c) != PLUS()) if c.view == "text" else z3.BoolVal(False)}
    ens = [("the steps are added to the pattern", lambda c: added(base(c), new(c), q(c), c.p.predicate, c.view)),
           ("no other query changes", lambda c: frame_field(c, "Q.pattern", lambda o: o == me(c)))]
    fine = lambda p: FA([i_], Imp(And(0 <= i_, i_ < PT.len(p)), Or(PT.at(p, i_) == step(DOT(), STEP_S.accessor(0, 1)(PT.at(p, i_))), PT.at(p, i_) == step(STAR(), STEP_S.accessor(0, 1)(PT.at(p, i_))))), patterns=[PT.at(p, i_)])
    ens.append(("the quantifiers of the pattern stay . and *", lambda c: Imp(fine(base(c)), fine(new(c)))))
    if chained:
        ens.append(("the query itself is returned", lambda c: c.res == me(c)))
    return Spec(QUERYPY, "Query." + name, {"self": Q, quant: INT, "predicate": PRED}, Q if chained else NONE, views={"count": {}, "text": {quant: STR}}, modifies=["Q.pattern"], ensures=ens, raises=r,
                loops={} if name != "_add_node" else {0: [("the first steps are added", lambda c: added(old(c), new(c), c.i, c.p.predicate, "count")), ("no other query changes", lambda c: frame_field(c, "Q.pattern", lambda o: o == me(c)))]})


# ---------------------------------------------------------------- constructors
def items(c, name):
    """The queries meant by the arguments: a tuple given as the one argument stands for its elements."""
    return meant(getattr(c.p, name))


def init_post(c, name, field, ok, convert):
    it, ss = items(c, name), c.h.arr("Q." + field)[c.p.self]
    return And(QS.len(ss) == QS.len(it),
               FA([i_], Imp(And(0 <= i_, i_ < QS.len(it)), item_post(c, QS.at(it, i_), QS.at(ss, i_), convert)), patterns=[QS.at(ss, i_)]))


def item_post(c, x, s, convert):
    return And(convert(c, x, s), same(s, x), c.h.alive("Q", s), s != null("Q"))


new_parts = lambda c, x, s: And(new_style(s), Imp(new_style(x), s == x))
old_parts = lambda c, x, s: And(kind(s, "Query", *(COMPOUND + OLD)), Imp(kind(x, "Query", *(COMPOUND + OLD)), s == x))


def alive_args(c, name):
    a = getattr(c.p, name)
    al = lambda x: And(c.h0.alive("Q", x), x != null("Q"))
    return And(FA([i_], Imp(And(0 <= i_, i_ < QS.len(a)), al(QS.at(a, i_))), patterns=[QS.at(a, i_)]), FA([i_], Imp(And(kind(QS.at(a, 0), "tuple"), 0 <= i_, i_ < QS.len(parts(QS.at(a, 0)))), al(QS.at(parts(QS.at(a, 0)), i_))), patterns=[QS.at(parts(QS.at(a, 0)), i_)]))


def base_init(file, cls, arg, field, fits, convert):
    empty = lambda c: QS.len(getattr(c.p, arg)) == 0
    return Spec(file, cls + ".__init__", {"self": Q, arg: Seq(Q)}, NONE, modifies=["Q." + field, "Q.true", "alloc:Q"],
                requires=[("the arguments are objects that are alive, and the new query is none of them", lambda c: And(alive_args(c, arg), not_among(c, arg)))],
                raises={"IndexError": empty, "TypeError": lambda c: And(Not(empty(c)), z3.Exists([i_], And(0 <= i_, i_ < QS.len(items(c, arg)), Not(fits(QS.at(items(c, arg), i_))))))},
                ensures=[("the parts are the queries given, in order", lambda c: init_post(c, arg, field, fits, convert)),
                         ("no other query changes", lambda c: others_unchanged(c, "Q." + field, c.p.self)), ("no other old query changes", lambda c: others_unchanged(c, "Q.true", c.p.self)), ("objects stay alive", alive_monotone)],
                loops={0: [("the first parts are there", lambda c: And(QS.len(c.h.arr("Q." + field)[c.p.self]) == c.i, FA([i_], Imp(And(0 <= i_, i_ < c.i), And(fits(QS.at(c.seq, i_)), item_post(c, QS.at(c.seq, i_), QS.at(c.h.arr("Q." + field)[c.p.self], i_), convert))), patterns=[QS.at(c.h.arr("Q." + field)[c.p.self], i_)]))),
                           ("the first parts fit", lambda c: FA([i_], Imp(And(0 <= i_, i_ < c.i), fits(QS.at(c.seq, i_))), patterns=[QS.at(c.seq, i_)])),
                           ("no other query changes", lambda c: others_unchanged(c, "Q." + field, c.p.self)), ("no other old query changes", lambda c: others_unchanged(c, "Q.true", c.p.self)), ("objects stay alive", alive_monotone)]})


def not_among(c, arg):
    a = getattr(c.p, arg)
    return And(Not(QS.mem(a, c.p.self)), Imp(kind(QS.at(a, 0), "tuple"), Not(QS.mem(parts(QS.at(a, 0)), c.p.self))))


def sub_init(file, cls, base, arg, field, bad):
    cnt = lambda c: QS.len(items(c, arg))
    r = {"IndexError": base.raises["IndexError"], "TypeError": base.raises["TypeError"]}
    r["BadNumberNaryQueryArgs"] = lambda c: And(Not(r["IndexError"](c)), Not(r["TypeError"](c)), bad(cnt(c)))
    return Spec(file, cls + ".__init__", {"self": Q, arg: Seq(Q)}, NONE, modifies=base.modifies, requires=base.requires, ensures=base.ensures, raises=r)


# ---------------------------------------------------------------- combining results
def apart(c):
    g = c.p.graph
    ch, r, nid = c.h0.arr("Node.children"), c.h0.roots(g), c.h0.arr("Node.nid")
    return FA([n_, m_], Imp(And(greach(ch, r, n_), greach(ch, r, m_), nid[n_] == nid[m_]), n_ == m_), patterns=[MP(greach(ch, r, n_), greach(ch, r, m_))])


def in_graph(c, n):
    return greach(c.h0.arr("Node.children"), c.h0.roots(c.p.graph), n)


def results_in_graph(c):
    s = c.p.subquery_results
    return FA([i_, n_], Imp(And(0 <= i_, i_ < LL.len(s), SN.mem(LL.at(s, i_), n_)), in_graph(c, n_)), patterns=[SN.mem(LL.at(s, i_), n_)])


def once(s):
    return distinct(s)


def result_sets(k, s, n):
    cnt = LL.len(s)
    if k == "ConjunctionQuery":
        return FA([i_], Imp(And(0 <= i_, i_ < cnt), SN.mem(LL.at(s, i_), n)), patterns=[LL.at(s, i_)])
    if k == "DisjunctionQuery":
        return z3.Exists([i_], And(0 <= i_, i_ < cnt, SN.mem(LL.at(s, i_), n)))
    if k == "ExclusiveDisjunctionQuery":
        return parity(s, cnt, n)
    return Not(SN.mem(LL.at(s, 0), n))


def combine(k):
    def is_it(c):
        return FA([n_], Imp(in_graph(c, n_), SN.mem(c.res, n_) == result_sets(k, c.p.subquery_results, n_)), patterns=[SN.mem(c.res, n_), in_graph(c, n_)])

    def inv(c):
        s, x, nid = c.p.subquery_results, c.v.xor_set, c.h0.arr("Node.nid")
        kq = z3.Int("kq")
        if x is None:  # the empty set before the first round
            return FA([n_], Not(parity(s, c.i, n_)), patterns=[in_graph(c, n_)])
        return And(FA([n_], Imp(in_graph(c, n_), x.has(nid[n_]) == parity(s, c.i, n_)), patterns=[in_graph(c, n_), x.has(nid[n_])]),
                   FA([kq], Imp(x.has(kq), And(in_graph(c, x.key(kq)), nid[x.key(kq)] == kq)), patterns=[x.has(kq)]))
    return Spec(COMPPY, k + "._apply_op_to_results", {"self": Q, "subquery_results": LISTS, "graph": G}, NS_,
                requires=[("the results are nodes of the graph", results_in_graph), ("the nodes of the graph have different numbers", apart), (CLOSED, closed),
                          ("there are results to combine", lambda c: LL.len(c.p.subquery_results) >= 1)],
                entry=lambda c: greach_axioms(c.h0.arr("Node.children"), c.h0.roots(c.p.graph)),
                ensures=[("the result is the combination of the results", is_it), ("the result is in the graph", lambda c: FA([n_], Imp(SN.mem(c.res, n_), in_graph(c, n_)), patterns=[SN.mem(c.res, n_)])), ("each node is there once", lambda c: once(c.res))],
                loops={0: [("the set so far", inv)]})


# ---------------------------------------------------------------- operators and functions
def operator(name, k, args):
    ps = [lambda c, a=a: getattr(c.p, a) for a in args]
    ok = lambda c: And(*[usable(p(c)) for p in ps])

    def meaning(c):
        x = [sem(p(c), n_) for p in ps]
        w = {"ConjunctionQuery": lambda: And(*x), "DisjunctionQuery": lambda: Or(*x), "ExclusiveDisjunctionQuery": lambda: z3.Xor(*x), "NegationQuery": lambda: Not(x[0])}[k]()
        return FA([n_], sem(c.res, n_) == w, patterns=[sem(c.res, n_)])
    return Spec(INITPY, name, {a: Q for a in args}, Q, modifies=["Q.subqueries", "Q.true", "alloc:Q"], requires=[("the arguments are queries", ok)],
                ensures=[("the new query stands for the combination of what the arguments stand for", meaning), ("it is a new %s" % k, lambda c: And(kind(c.res, k), Not(c.h0.alive("Q", c.res)))),
                         ("the queries combined do not change", lambda c: And(frame_q(c, "Q.subqueries"), frame_q(c, "Q.true"), frame_q(c, "Q.compat")))])


def steps(c):
    return FA([q_], Imp(And(c.h.alive("Q", q_), Not(c.h0.alive("Q", q_)), kind(q_, "Query")), usable_pattern(c.h0.pattern(q_))), patterns=[c.h0.pattern(q_)])


def dispatch(ex, recv, args, kw, e):
    """The method of the object's class."""
    for k in COMPOUND[:-1]:
        if ex.branch(kind(recv.x, k)):
            return ex.call_func(FuncVal(front.module(COMPPY).classes[k].methods["_apply_op_to_results"], None, recv), args, kw, e)
    ex.prove("the query combines results", kind(recv.x, COMPOUND[-1]))
    return ex.call_func(FuncVal(front.module(COMPPY).classes[COMPOUND[-1]].methods["_apply_op_to_results"], None, recv), args, kw, e)


def reset_cache_spec():
    return Spec(ENGPY, "QueryEngine.reset_cache", {"self": E}, NONE, modifies=["Engine.cache"],
                ensures=[("nothing is cached", lambda c: FA([k_], Not(c.h.cache(c.p.self).has(k_)), patterns=[c.h.cache(c.p.self).has(k_)])),
                         ("no other engine changes", lambda c: frame_field(c, "Engine.cache", lambda o: o == c.p.self))])


def engine_apply(reg):
    """QueryEngine.apply over the contracts of what it calls."""
    reg.add(graph_traverse("frame", "traverse", trusted="proved by the check of P01"))
    from .p01 import len_spec
    reg.add(len_spec(trusted="proved by the check of P01"))
    reg.add(apply_spec())
    parity_lemmas(reg)
    reg.add(reset_cache_spec())
    reg.methods[("Q", "_apply_op_to_results")] = dispatch
    reg.add(Spec(TEXTPY, "parse_string_dialect", {"query_str": Q, "multi_index_mode": STR}, Q, modifies=["alloc:Q"], trusted="text queries: P16; bounded here",
                 ensures=[("", lambda c: And(new_style(c.res), same(c.res, c.p.query_str), Not(c.h0.alive("Q", c.res)), c.h.alive("Q", c.res), c.res != null("Q"), alive_monotone(c))), ("combined queries are as built by their constructors, plain ones have a step", lambda c: Imp(well_built(c, c.h0), And(well_built(c, c.h), steps(c))))]))


def build():
    reg = base()
    query_classes(reg)
    text_constructors(reg)
    for nm, q, b, ch, r in (("_add_node", "quantifer", lambda c: c.h0.pattern(c.p.self), False, None), ("match", "quantifier", lambda c: PT.empty, True, None),
                            ("rel", "quantifier", lambda c: c.h0.pattern(c.p.self), True, lambda c: PT.len(c.h0.pattern(c.p.self)) == 0),
                            ("relation", "quantifer", lambda c: c.h0.pattern(c.p.self), True, lambda c: PT.len(c.h0.pattern(c.p.self)) == 0)):
        reg.add(builder(nm, q, b, ch, r))
    b = base_init(COMPPY, "CompoundQuery", "queries", "subqueries", usable, new_parts)
    reg.add(b)
    for k in COMPOUND:
        reg.add(sub_init(COMPPY, k, b, "queries", "subqueries", (lambda n: n != 1) if k == "NegationQuery" else (lambda n: n < 2)))
        reg.externs["new:" + k] = constructor(k, COMPPY, "subqueries")
        reg.add(combine(k))
    for nm, k, args in (("combine_via_conjunction", COMPOUND[0], ("query0", "query1")), ("combine_via_disjunction", COMPOUND[1], ("query0", "query1")),
                        ("combine_via_exclusive_disjunction", COMPOUND[2], ("query0", "query1")), ("negate_query", COMPOUND[3], ("query",))):
        reg.add(operator(nm, k, args))
    engine_class(reg)
    reg.add(apply_impl_spec(trusted="proved by the check of P13"))
    engine_apply(reg)
    return reg
