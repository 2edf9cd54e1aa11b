"""P03: frames and nodes compare, order and hash consistently."""
from .model import *

ATTRS = Map(STR, VAL)
PAIR = Tup(STR, VAL)
REP = Seq(PAIR)
SP = SeqTheory(PAIR)
STR_S, VAL_S, REP_S = sort_of(STR), sort_of(VAL), sort_of(REP)
PAIR_S = sort_of(PAIR)
DOM_S, VALS_S = z3.ArraySort(STR_S, B), z3.ArraySort(STR_S, VAL_S)
skey = fn("skey", STR_S, z3.RealSort())   # strings are totally ordered
vkey = fn("vkey", VAL_S, z3.RealSort())   # so are the values of one attribute (assumed mutually comparable)
fd = fn("first_difference", REP_S, REP_S, I)
eqrep = fn("eqrep", REP_S, REP_S, B)
ltrep = fn("ltrep", REP_S, REP_S, B)
hrep = fn("hash_rep", REP_S, I)
K = lambda x: PAIR_S.accessor(0, 0)(x)
W = lambda x: PAIR_S.accessor(0, 1)(x)
mk = lambda k, v: PAIR_S.constructor(0)(k, v)
s_, t_, u_ = z3.Consts("s t u", REP_S)
a_, b_ = z3.Consts("a b", STR_S)
v_, w_ = z3.Consts("v w", VAL_S)
L, AT = SP.len, SP.at


def ltpair(x, y):
    return Or(skey(K(x)) < skey(K(y)), And(K(x) == K(y), vkey(W(x)) < vkey(W(y))))


def tuples():
    """Python's comparison of tuples (of attribute/value pairs): decided at the first position where they differ."""
    f = fd(s_, t_)
    same = And(L(s_) == L(t_), f == L(s_))
    return [
        FA([a_, b_], Imp(skey(a_) == skey(b_), a_ == b_), patterns=[MP(skey(a_), skey(b_))]),
        FA([v_, w_], Imp(vkey(v_) == vkey(w_), v_ == w_), patterns=[MP(vkey(v_), vkey(w_))]),
        FA([s_, t_], And(0 <= f, f <= L(s_), f <= L(t_)), patterns=[f]),
        FA([s_, t_, i_], Imp(And(0 <= i_, i_ < f), AT(s_, i_) == AT(t_, i_)), patterns=[MP(f, AT(s_, i_)), MP(f, AT(t_, i_))]),
        FA([s_, t_], Imp(And(f < L(s_), f < L(t_)), AT(s_, f) != AT(t_, f)), patterns=[f]),
        FA([s_, t_], Imp(same, s_ == t_), patterns=[f]),
        FA([s_, t_], And(Imp(f < L(s_), SP.mem(s_, AT(s_, f))), Imp(f < L(t_), SP.mem(t_, AT(t_, f)))), patterns=[fd(s_, t_)]),
        FA([s_, t_], fd(s_, t_) >= 0, patterns=[MP(hrep(s_), hrep(t_))]),
        FA([s_, t_], eqrep(s_, t_) == And(L(s_) == L(t_), f == L(s_)), patterns=[eqrep(s_, t_)]),
        FA([s_, t_], ltrep(s_, t_) == And(f < L(t_), Or(f == L(s_), ltpair(AT(s_, f), AT(t_, f)))), patterns=[ltrep(s_, t_)]),
    ]


def isrep(s, d, v):
    """s lists the attributes and their values, each once, in the order of the attributes' names."""
    x = AT(s, i_)
    return And(FA([i_], Imp(And(0 <= i_, i_ < L(s)), And(d[K(x)], W(x) == v[K(x)])), patterns=[x]),
               FA([a_], Imp(d[a_], SP.mem(s, mk(a_, v[a_]))), patterns=[d[a_]]),
               FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < L(s)), skey(K(AT(s, i_))) < skey(K(AT(s, j_)))), patterns=[MP(AT(s, i_), AT(s, j_))]))


def same_attrs(d, v, e, w):
    return And(FA([a_], d[a_] == e[a_]), FA([a_], Imp(d[a_], v[a_] == w[a_])))


OPT = Opt(REP)


def cached_ok(h):
    """Every frame's cached tuple lists its attributes (the attributes of a frame do not change once it is used)."""
    f = z3.Const("f", FRAME_S)
    o = unpack(OPT, h.arr("Frame.rep")[f])
    r = o.x[1].x
    return FA([f], Imp(And(h.alive("Frame", f), Not(o.x[0]), L(r) > 0), isrep(r, h.arr("Frame.attrs", 0)[f], h.arr("Frame.attrs", 1)[f])), patterns=[h.arr("Frame.rep")[f]])


def at(c, f, h=None):
    h = h or c.h0
    return h.arr("Frame.attrs", 0)[f], h.arr("Frame.attrs", 1)[f]


o_ = z3.Const("o", FRAME_S)


def unchanged(c):
    return And(*[c.h.arr(k, i)[o_] == c.h0.arr(k, i)[o_] for k, i in (("Frame.attrs", 0), ("Frame.attrs", 1), ("Frame.rep", 0))])


def build():
    reg = base(frames="concrete")
    reg.cls("Frame", FRAMEPY, attrs=("attrs", ATTRS), rep=("_tuple_repr", OPT))

    def order(ex, op, a, b):
        import ast
        if a.t == STR and b.t == STR:
            x, y = skey(a.x), skey(b.x)
        elif a.t == VAL and b.t == VAL:
            x, y = vkey(a.x), vkey(b.x)
        elif a.t == REP and b.t == REP:
            a, b = ex.read(a), ex.read(b)
            if isinstance(op, (ast.LtE, ast.GtE)):
                return None
            return ltrep(a.x, b.x) if isinstance(op, ast.Lt) else ltrep(b.x, a.x)
        else:
            return None
        return {ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y, ast.GtE: x >= y}[type(op)]
    reg.externs["op:Order"] = order
    reg.externs["op:SeqEq"] = lambda ex, a, b: eqrep(ex.read(a).x, ex.read(b).x) if a.t == REP else None
    reg.externs["builtin:hash"] = lambda ex, args, kw, e: V(INT, hrep(ex.read(args[0]).x)) if args[0].t == REP else None
    reg.assumptions += ["the values frames hold for one attribute are mutually comparable by a total order (vkey), and == on them is an equivalence",
                        "tuples compare at their first differing position and equal tuples hash alike (CPython)",
                        "the attributes of a frame are not changed after its first comparison",
                        "functools.total_ordering derives <= and >= from < and =="]
    fr = [("cached tuples list the attributes", lambda c: cached_ok(c.h0))]
    alive = lambda *ns: [("%s is a live frame" % n, lambda c, n=n: c.h0.alive("Frame", getattr(c.p, n))) for n in ns]
    keep = [("cached tuples still list the attributes", lambda c: cached_ok(c.h))]
    E = lambda c: tuples()
    reg.add(Spec(FRAMEPY, "Frame.tuple_repr", {"self": F}, REP, requires=fr + alive("self"), modifies=["Frame.rep"], entry=E,
                 ensures=[("lists each attribute once, in order, with its value", lambda c: isrep(c.res, *at(c, c.p.self)))] + keep))
    reg.add(Spec(FRAMEPY, "Frame.__eq__", {"self": F, "other": F}, BOOL, requires=fr + alive("self", "other"), modifies=["Frame.rep"], entry=E,
                 ensures=[("true exactly when attributes and values are the same", lambda c: c.res == same_attrs(*at(c, c.p.self), *at(c, c.p.other)))] + keep))

    def cmp(c, flip):
        d, v = at(c, c.p.self)
        e, w = at(c, c.p.other)
        r = ltrep(t_, s_) if flip else ltrep(s_, t_)
        return FA([s_, t_], Imp(And(isrep(s_, d, v), isrep(t_, e, w)), c.res == r), patterns=[r])
    reg.add(Spec(FRAMEPY, "Frame.__lt__", {"self": F, "other": F}, BOOL, requires=fr + alive("self", "other"), modifies=["Frame.rep"], entry=E,
                 ensures=[("compares the ordered attribute lists", lambda c: cmp(c, False))] + keep))
    reg.add(Spec(FRAMEPY, "Frame.__gt__", {"self": F, "other": F}, BOOL, requires=fr + alive("self", "other"), modifies=["Frame.rep"], entry=E,
                 ensures=[("compares the ordered attribute lists", lambda c: cmp(c, True))] + keep))
    reg.add(Spec(FRAMEPY, "Frame.__hash__", {"self": F}, INT, requires=fr + alive("self"), modifies=["Frame.rep"], entry=E,
                 ensures=[("depends on the attributes and values alone", lambda c: FA([s_], Imp(isrep(s_, *at(c, c.p.self)), c.res == hrep(s_)), patterns=[hrep(s_)]))] + keep))

    def init_post(c):
        d, v = at(c, c.p.self, c.h)
        none = (z3.K(STR_S, z3.BoolVal(False)), None)
        ad, av = (c.p.attrs.dom, c.p.attrs.val) if c.given("attrs") else none
        kd, kv = (c.p.kwargs.dom, c.p.kwargs.val)
        ty = strlit("type")
        default = fn("val_of_str", STR_S, VAL_S)(strlit("None"))
        given = lambda k: Or(ad[k], kd[k])
        val = lambda k: If(kd[k], kv[k], av[k] if av is not None else default)
        return And(FA([a_], d[a_] == Or(given(a_), a_ == ty)), FA([a_], Imp(d[a_], v[a_] == If(given(a_), val(a_), default))))

    def nothing(c):
        e = z3.K(STR_S, z3.BoolVal(False))
        return And((c.p.attrs.dom == e) if c.given("attrs") else True, c.p.kwargs.dom == e)
    init = Spec(FRAMEPY, "Frame.__init__", {"self": F, "attrs": ATTRS, "kwargs": ATTRS}, NONE, views={"attributes given": {}, "keywords only": {"attrs": None}},
                modifies=["Frame.rep", "Frame.attrs", "param:attrs"], raises={"ValueError": nothing},
                ensures=[("holds the attributes given, keywords first, and a type", init_post),
                         ("has no cached tuple", lambda c: unpack(OPT, c.h.arr("Frame.rep")[c.p.self]).x[0]),
                         ("changes no other frame", lambda c: FA([o_], Or(o_ == c.p.self, unchanged(c))))])
    init.inline = True
    reg.add(init)
    new = lambda c: And(Not(c.h0.alive("Frame", c.res)), c.h.alive("Frame", c.res), c.res != c.p.self)
    others = lambda c: FA([o_], Imp(c.h0.alive("Frame", o_), unchanged(c)))
    typed = [("the frame has a type", lambda c: c.h0.arr("Frame.attrs", 0)[c.p.self][strlit("type")])]
    copy = Spec(FRAMEPY, "Frame.copy", {"self": F}, F, requires=fr + alive("self") + typed, modifies=["Frame.rep", "Frame.attrs", "alloc:Frame"], entry=E,
                ensures=[("is a new frame", new), ("has the same attributes and values", lambda c: same_attrs(*at(c, c.res, c.h), *at(c, c.p.self))), ("changes no frame", others)] + keep)
    reg.add(copy)
    reg.add(Spec(FRAMEPY, "Frame.get", {"self": F, "name": STR, "default": VAL}, VAL,
                 ensures=[("is the attribute's value or the default", lambda c: c.res == If(at(c, c.p.self)[0][c.p.name], at(c, c.p.self)[1][c.p.name], c.p.default))]))
    reg.add(Spec(FRAMEPY, "Frame.__getitem__", {"self": F, "name": STR}, VAL, raises={"KeyError": lambda c: Not(at(c, c.p.self)[0][c.p.name])},
                 ensures=[("is the attribute's value", lambda c: c.res == at(c, c.p.self)[1][c.p.name])]))

    nid = lambda c, n: c.h0.nid(n)
    reg.add(Spec(NODEPY, "Node.__eq__", {"self": N, "other": N}, BOOL, ensures=[("compares the numbers", lambda c: c.res == (nid(c, c.p.self) == nid(c, c.p.other)))]))
    reg.add(Spec(NODEPY, "Node.__hash__", {"self": N}, INT, ensures=[("is the number", lambda c: c.res == nid(c, c.p.self))]))
    reg.add(Spec(NODEPY, "Node.__lt__", {"self": N, "other": N}, BOOL, ensures=[("compares the numbers", lambda c: c.res == (nid(c, c.p.self) < nid(c, c.p.other)))]))
    reg.add(Spec(NODEPY, "Node.__gt__", {"self": N, "other": N}, BOOL, ensures=[("compares the numbers", lambda c: c.res == (nid(c, c.p.self) > nid(c, c.p.other)))]))

    # the order and equality the methods implement
    d, e, v, w = z3.Const("d", DOM_S), z3.Const("e", DOM_S), z3.Const("vs", VALS_S), z3.Const("ws", VALS_S)
    s, t, u = z3.Consts("s1 s2 s3", REP_S)
    x, y, z = z3.Ints("x y z")
    S = SP.axioms() + tuples()
    reps = [isrep(s, d, v), isrep(t, e, w)]
    touch = lambda a, b: fd(a, b) == fd(a, b)
    sm = z3.Bool("same")
    reg.lemma("equal attributes and values have one ordered list", lambda: (S + reps + [same_attrs(d, v, e, w), fd(s, t) == fd(t, s)], s == t))
    reg.lemma("frames with one ordered list have equal attributes and values", lambda: (S + reps + [s == t], same_attrs(d, v, e, w)))
    reg.lemma("the order is irreflexive", lambda: (S, Not(ltrep(s, s))))
    reg.lemma("the order is transitive", lambda: (S + [ltrep(s, t), ltrep(t, u), ltrep(s, u) == ltrep(s, u)], ltrep(s, u)))
    reg.lemma("the order is total and agrees with equality", lambda: (S + [eqrep(s, t) == eqrep(s, t), ltrep(s, t) == ltrep(s, t), fd(t, s) == fd(t, s), ltrep(t, s) == ltrep(t, s)],
                                                                     z3.Or(And(eqrep(s, t), Not(ltrep(s, t)), Not(ltrep(t, s))), And(Not(eqrep(s, t)), ltrep(s, t) != ltrep(t, s)))))
    return reg
