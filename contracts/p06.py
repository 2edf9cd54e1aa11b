"""P06: graphs compare equal exactly when their nodes correspond."""
from .p02 import *
from .p01 import graph_out, len_spec

MII = Map(INT, INT)
rS, rO = z3.Consts("roots_self roots_other", O_S)      # ghost: the roots of the two graphs
phi = fn("phi", NODE_S, NODE_S)                        # an arbitrary correspondence
of_S, of_O = fn("node_of_number_self", I, NODE_S), fn("node_of_number_other", I, NODE_S)
a_, b_ = z3.Consts("a b", NODE_S)
q_ = z3.Int("q")


class St:
    """The state of the comparison, as seen by the clauses."""

    def __init__(self, c, rs, ro):
        ex = c.ex
        self.f, comps, _ = ex.spec_sort(N, lambda h, x: V(F, h("Node.frame")[x]))
        self.ks = [c.h0.arr(k, i) for k, i, _ in comps]
        self.ch, self.nid, self.frame = c.h0.arr("Node.children"), c.h0.arr("Node.nid"), c.h0.arr("Node.frame")
        self.rs, self.ro = rs, ro

    def sort(self, s):
        return self.f(s, *self.ks)

    def gS(self, n):
        return greach(self.ch, self.rs, n)

    def gO(self, n):
        return greach(self.ch, self.ro, n)

    def pair(self, vs, a, b):
        return And(vs.has(self.nid[a]), vs.get(self.nid[a]) == self.nid[b])

    def key(self, n):
        return fkey(self.frame[n])

    def matched(self, vs, a, b, upto=None):
        """The children of a and b, sorted by frame, are pairs with equal frames."""
        A_, B_ = self.sort(self.ch[a]), self.sort(self.ch[b])
        x, y = SN.at(A_, i_), SN.at(B_, i_)
        n = SN.len(A_) if upto is None else upto
        return And(SN.len(self.ch[a]) == SN.len(self.ch[b]), FA([i_], Imp(And(0 <= i_, i_ < n), And(self.key(x) == self.key(y), self.pair(vs, x, y))), patterns=[x, y]))

    def closed(self, vs, but=None):
        """Every node that has a counterpart is matched with it (but some)."""
        guard = (lambda a: z3.BoolVal(True)) if but is None else (lambda a: Not(but(a)))
        return FA([a_, b_], Imp(And(self.gS(a_), self.gO(b_), self.pair(vs, a_, b_), guard(a_)), self.matched(vs, a_, b_)), patterns=[MP(self.nid[a_], self.gO(b_), self.gS(a_))])

    def inverse(self, vs, vo):
        return And(FA([q_], Imp(vs.has(q_), And(vo.has(vs.get(q_)), vo.get(vs.get(q_)) == q_)), patterns=[vs.has(q_)]),
                   FA([q_], Imp(vo.has(q_), And(vs.has(vo.get(q_)), vs.get(vo.get(q_)) == q_)), patterns=[vo.has(q_)]))

    def real(self, vs, vo):
        """The numbers are those of nodes of the two graphs."""
        return And(FA([q_], Imp(vs.has(q_), And(self.gS(of_S(q_)), self.nid[of_S(q_)] == q_)), patterns=[vs.has(q_)]),
                   FA([q_], Imp(vo.has(q_), And(self.gO(of_O(q_)), self.nid[of_O(q_)] == q_)), patterns=[vo.has(q_)]))

    def kept(self, m0, m1):
        return FA([q_], Imp(m0.has(q_), And(m1.has(q_), m1.get(q_) == m0.get(q_))), patterns=[m0.has(q_), m1.has(q_)])

    def no_new_roots(self, vs0, vs1, but):
        return FA([a_], Imp(And(self.gS(a_), vs1.has(self.nid[a_]), Not(vs0.has(self.nid[a_])), Not(but(a_))), Not(SN.mem(self.rs, a_))), patterns=[vs1.has(self.nid[a_])])

    def no_new_roots_o(self, vo0, vo1, but):
        return FA([a_], Imp(And(self.gO(a_), vo1.has(self.nid[a_]), Not(vo0.has(self.nid[a_])), Not(but(a_))), Not(SN.mem(self.ro, a_))), patterns=[vo1.has(self.nid[a_])])

    # a given correspondence
    def iso(self):
        A_, B_ = self.sort(self.ch[a_]), self.sort(self.ch[phi(a_)])
        RA, RB = self.sort(self.rs), self.sort(self.ro)
        return And(
            FA([a_], Imp(self.gS(a_), And(self.gO(phi(a_)), self.key(phi(a_)) == self.key(a_), SN.len(self.ch[phi(a_)]) == SN.len(self.ch[a_]))), patterns=[self.gS(a_)]),
            FA([a_, i_], Imp(And(self.gS(a_), 0 <= i_, i_ < SN.len(self.ch[a_])), SN.at(B_, i_) == phi(SN.at(A_, i_))), patterns=[SN.at(A_, i_)]),
            FA([a_, b_], Imp(And(self.gS(a_), self.gS(b_), phi(a_) == phi(b_)), a_ == b_), patterns=[MP(phi(a_), phi(b_))]),
            SN.len(self.rs) == SN.len(self.ro),
            FA([i_], Imp(And(0 <= i_, i_ < SN.len(self.rs)), SN.at(RB, i_) == phi(SN.at(RA, i_))), patterns=[SN.at(RA, i_)]))

    def follows(self, vs, vo):
        """What was visited follows the given correspondence."""
        x = self.nid[a_]
        y = self.nid[phi(a_)]
        return FA([a_], Imp(self.gS(a_), And(vs.has(x) == vo.has(y), Imp(vs.has(x), And(vs.get(x) == y, vo.get(y) == x)))), patterns=[self.gS(a_)])

    def pre(self):
        return [("no reachable node has a root as a child", And(well_rooted(self.ch, self.rs), well_rooted(self.ch, self.ro))),
                ("reachable nodes have different numbers", And(numbered_apart(self.ch, self.rs, self.nid), numbered_apart(self.ch, self.ro, self.nid)))]

    def facts(self, c):
        ch, nid = self.ch, self.nid
        out = greach_axioms(ch, self.rs) + greach_axioms(ch, self.ro)
        # the node of a number (numbers tell the nodes of a graph apart)
        out += [FA([a_], Imp(self.gS(a_), of_S(nid[a_]) == a_), patterns=[of_S(nid[a_]), self.gS(a_)]),
                FA([a_], Imp(self.gO(a_), of_O(nid[a_]) == a_), patterns=[of_O(nid[a_]), self.gO(a_)])]
        # sorting does not change which nodes are in a list
        for s in (ch[a_],):
            r = self.sort(s)
            out += [FA([a_], SN.len(r) == SN.len(s), patterns=[r]), FA([a_, b_], SN.mem(r, b_) == SN.mem(s, b_), patterns=[SN.mem(r, b_), MP(r, SN.mem(s, b_))])]
        for s in (self.rs, self.ro):
            r = self.sort(s)
            out += [SN.len(r) == SN.len(s), FA([b_], SN.mem(r, b_) == SN.mem(s, b_), patterns=[SN.mem(r, b_)]), FA([b_], SN.mem(r, b_) == SN.mem(s, b_), patterns=[SN.mem(s, b_)]), Imp(distinct(s), distinct(r))]
        return out


def maps(c, when):
    """(vs, vo) as dictionaries."""
    e = MapC(z3.K(I, z3.BoolVal(False)), z3.K(I, z3.IntVal(0)))
    if when == "entry":
        return (c.p.vs, c.p.vo) if c.given("vs") else (e, e)
    if when == "now":
        r = []
        for m in (c.v.vs, c.v.vo):
            r.append(e if isinstance(m, tuple) else m)
        return r
    return c.g.vs, c.g.vo


def dag_equal_spec():
    S = lambda c: St(c, c.gp.roots_self, c.gp.roots_other)

    def sound(c):
        st = S(c)
        (v0, w0), (v1, w1) = maps(c, "entry"), maps(c, "end")
        me, it = c.p.self, c.p.other
        return [("the nodes are a pair", st.pair(v1, me, it)),
                ("pairs stay pairs", And(st.kept(v0, v1), st.kept(w0, w1))),
                ("the two dictionaries are inverse", st.inverse(v1, w1)),
                ("they hold nodes of the two graphs", st.real(v1, w1)),
                ("the children of new pairs are pairs with equal frames", st.closed(v1, lambda a: v0.has(st.nid[a]))),
                ("no root becomes part of a pair, but perhaps this one", And(st.no_new_roots(v0, v1, lambda a: a == me), st.no_new_roots_o(w0, w1, lambda a: a == it)))]
    names = ["the nodes are a pair", "pairs stay pairs", "the two dictionaries are inverse", "they hold nodes of the two graphs", "the children of new pairs are pairs with equal frames", "no root becomes part of a pair, but perhaps this one"]

    def complete(c):
        st = S(c)
        (v0, w0), (v1, w1) = maps(c, "entry"), maps(c, "end")
        return Imp(And(st.iso(), c.p.other == phi(c.p.self), st.follows(v0, w0)), And(c.res, st.follows(v1, w1)))

    def inv(i):
        def f(c):
            st = S(c)
            (v0, w0), (v1, w1) = maps(c, "entry"), maps(c, "now")
            me, it = c.p.self, c.p.other
            return [
                st.pair(v1, me, it), And(st.kept(v0, v1), st.kept(w0, w1)), st.inverse(v1, w1), st.real(v1, w1),
                st.closed(v1, lambda a: Or(v0.has(st.nid[a]), a == me)),
                And(st.no_new_roots(v0, v1, lambda a: a == me), st.no_new_roots_o(w0, w1, lambda a: a == it)),
                st.matched(v1, me, it, c.i),
                Imp(And(st.iso(), it == phi(me), st.follows(v0, w0)), st.follows(v1, w1))][i]
        return f
    inames = names + ["the first children are pairs with equal frames", "what was visited follows a given correspondence"]

    def gv(n):
        def f(ex):
            return ex.frame.vars[n]
        return f
    reqs = [
        ("the nodes are reachable", lambda c: And(S(c).gS(c.p.self), S(c).gO(c.p.other))),
        ("no reachable node has a root as a child", lambda c: S(c).pre()[0][1]),
        ("reachable nodes have different numbers", lambda c: S(c).pre()[1][1]),
        ("the nodes were not visited", lambda c: And(Not(maps(c, "entry")[0].has(S(c).nid[c.p.self])), Not(maps(c, "entry")[1].has(S(c).nid[c.p.other])))),
        ("the two dictionaries are inverse", lambda c: S(c).inverse(*maps(c, "entry"))),
        ("they hold nodes of the two graphs", lambda c: S(c).real(*maps(c, "entry"))),
    ]
    sp = Spec(NODEPY, "Node.dag_equal", {"self": N, "other": N, "vs": MII, "vo": MII}, BOOL, views={"visited given": {}, "alone": {"vs": None, "vo": None}},
              modifies=["param:vs", "param:vo"], requires=reqs, ghost_params={"roots_self": NS_, "roots_other": NS_},
              ghost_args={"Node.dag_equal": lambda c: {"roots_self": V(NS_, c.gp.roots_self), "roots_other": V(NS_, c.gp.roots_other)}},
              entry=lambda c: S(c).facts(c),
              ensures=[("if true, " + n, lambda c, i=i: Imp(c.res, sound(c)[i][1])) for i, n in enumerate(names)] + [
                  ("true if some correspondence pairs the nodes", complete),
                  ("the dictionaries given are the ones filled", lambda c: And(c.o.vs.dom == c.g.vs.dom, c.o.vs.val == c.g.vs.val, c.o.vo.dom == c.g.vo.dom, c.o.vo.val == c.g.vo.val) if c.given("vs") else True)],
              ghost={"vs": (MII, gv("vs")), "vo": (MII, gv("vo"))},
              loops={0: [(n, inv(i)) for i, n in enumerate(inames)]})
    return sp


def pigeonhole(s, t, f):
    """Lists without repetitions are no longer than lists they are mapped into one to one."""
    return Imp(And(distinct(s), FA([n_], Imp(SN.mem(s, n_), SN.mem(t, f(n_))), patterns=[SN.mem(s, n_)]),
                   FA([n_, m_], Imp(And(SN.mem(s, n_), SN.mem(s, m_), f(n_) == f(m_)), n_ == m_), patterns=[MP(SN.mem(s, n_), SN.mem(s, m_))])), SN.len(s) <= SN.len(t))


psi = fn("psi", NODE_S, NODE_S)


def eq_spec(trusted=None):
    def S(c):
        return St(c, c.h0.roots(c.p.self), c.h0.roots(c.p.other))

    def outs(c):
        d = Dfs(c, "frame")
        r = []
        for x in (c.p.self, c.p.other):
            rs = d.sorted(c.h0.roots(x))
            r.append(d.LO(z3.BoolVal(True), EMPTY, SN.empty, rs, SN.len(rs)))
        return r

    def inv(i):
        def f(c):
            st = S(c)
            vs, vo = maps(c, "now")
            RA, RB = st.sort(st.rs), st.sort(st.ro)
            x, y = SN.at(RA, j_), SN.at(RB, j_)
            return [
                st.inverse(vs, vo), st.real(vs, vo), st.closed(vs),
                FA([j_], Imp(And(0 <= j_, j_ < c.i), And(st.pair(vs, x, y), st.key(x) == st.key(y))), patterns=[x, y]),
                FA([j_], Imp(And(c.i <= j_, j_ < SN.len(RA)), Not(vs.has(st.nid[x]))), patterns=[x]),
                FA([j_], Imp(And(c.i <= j_, j_ < SN.len(RB)), Not(vo.has(st.nid[y]))), patterns=[y]),
                Imp(st.iso(), st.follows(vs, vo)),
            ][i]
        return f
    inames = ["the two dictionaries are inverse", "they hold nodes of the two graphs", "the children of pairs are pairs with equal frames", "the first roots are pairs with equal frames",
              "the other roots of self were not visited", "the other roots of other were not visited", "what was visited follows a given correspondence"]

    def H(c):
        st = S(c)
        return lambda a: of_O(c.g.vs.get(st.nid[a]))

    def good(c):
        st = S(c)
        h = H(c)
        return lambda a: And(st.gS(a), c.g.vs.has(st.nid[a]), st.gO(h(a)), st.pair(c.g.vs, a, h(a)))

    def goodo(c):
        st = S(c)
        return lambda b: And(st.gO(b), c.g.vo.has(st.nid[b]), st.gS(of_S(c.g.vo.get(st.nid[b]))), H(c)(of_S(c.g.vo.get(st.nid[b]))) == b)

    def if_true(f):
        return lambda c: Imp(And(c.res, c.p.self != c.p.other), f(c))

    def children(c):
        st, h = S(c), H(c)
        A_, B_ = st.sort(st.ch[a_]), st.sort(st.ch[h(a_)])
        return FA([a_], Imp(st.gS(a_), And(SN.len(st.ch[a_]) == SN.len(st.ch[h(a_)]),
                  FA([i_], Imp(And(0 <= i_, i_ < SN.len(A_)), And(SN.at(B_, i_) == h(SN.at(A_, i_)), st.key(SN.at(A_, i_)) == st.key(SN.at(B_, i_)))), patterns=[SN.at(A_, i_), SN.at(B_, i_)]))), patterns=[st.gS(a_)])

    def rts(c):
        st, h = S(c), H(c)
        A_, B_ = st.sort(st.rs), st.sort(st.ro)
        return And(SN.len(st.rs) == SN.len(st.ro), FA([i_], Imp(And(0 <= i_, i_ < SN.len(A_)), And(SN.at(B_, i_) == h(SN.at(A_, i_)), st.key(SN.at(A_, i_)) == st.key(SN.at(B_, i_)))), patterns=[SN.at(A_, i_), SN.at(B_, i_)]))
    st_ = lambda c: S(c)
    sp = Spec(GRAPHPY, "Graph.__eq__", {"self": G, "other": G}, BOOL, requires=[
        ("no reachable node has a root as a child", lambda c: S(c).pre()[0][1]), ("reachable nodes have different numbers", lambda c: S(c).pre()[1][1]),
        ("roots are listed once", lambda c: And(distinct(S(c).rs), distinct(S(c).ro)))],
        entry=lambda c: S(c).facts(c) + [
            pigeonhole(outs(c)[0], outs(c)[1], phi), pigeonhole(outs(c)[1], outs(c)[0], psi)],
        ghost={n: (MII, lambda ex, n=n: ex.frame.vars[n] if n in ex.frame.vars else V(MII, MapC(z3.K(I, z3.BoolVal(False)), z3.K(I, z3.IntVal(0))))) for n in ("vs", "vo")},
        ghost_args={"Node.dag_equal": lambda c: {"roots_self": V(NS_, c.h0.roots(c.p.self)), "roots_other": V(NS_, c.h0.roots(c.p.other))}},
        ensures=[
            ("if true, every node of self has a counterpart in other", if_true(lambda c: FA([a_], Imp(st_(c).gS(a_), good(c)(a_)), patterns=[st_(c).gS(a_)]))),
            ("if true, no two nodes share a counterpart", if_true(lambda c: FA([a_, b_], Imp(And(st_(c).gS(a_), st_(c).gS(b_), H(c)(a_) == H(c)(b_)), a_ == b_), patterns=[MP(st_(c).gS(a_), st_(c).gS(b_))]))),
            ("if true, every node of other is a counterpart", if_true(lambda c: FA([b_], Imp(st_(c).gO(b_), goodo(c)(b_)), patterns=[st_(c).gO(b_)]))),
            ("if true, the roots correspond and have equal frames", if_true(rts)),
            ("if true, the children of counterparts correspond and have equal frames", if_true(children)),
            ("true if some correspondence of nodes, roots, frames and edges exists", lambda c: Imp(And(S(c).iso(), back(S(c))), c.res)),
        ],
        loops={0: [(n, inv(i)) for i, n in enumerate(inames)]}, trusted=trusted)

    def back(st):
        """psi is the inverse of phi."""
        return FA([b_], Imp(st.gO(b_), And(st.gS(psi(b_)), phi(psi(b_)) == b_)), patterns=[st.gO(b_)])

    def hint(c):
        st = S(c)
        return And(greach_induction(st.ch, st.rs, good(c)), greach_induction(st.ch, st.ro, goodo(c)))
    sp.axiom_hints = hint
    b, d = z3.Consts("b d", NODE_S)

    def when(f):
        return lambda c: Imp(And(c.res, c.p.self != c.p.other), f(c))
    h_o = lambda c, b: of_S(c.g.vo.get(S(c).nid[b]))
    sp.hints = [
        ("roots have counterparts", when(lambda c: FA([b], Imp(SN.mem(S(c).rs, b), good(c)(b)), patterns=[SN.mem(S(c).rs, b)]))),
        ("nodes are matched with their counterparts", when(lambda c: FA([b], Imp(good(c)(b), S(c).matched(c.g.vs, b, H(c)(b))), patterns=[S(c).gS(b)]))),
        ("children have counterparts", when(lambda c: FA([b, d], Imp(And(good(c)(b), SN.mem(S(c).ch[b], d)), good(c)(d)), patterns=[MP(S(c).gS(b), SN.mem(S(c).ch[b], d))]))),
        ("roots are counterparts", when(lambda c: FA([b], Imp(SN.mem(S(c).ro, b), goodo(c)(b)), patterns=[SN.mem(S(c).ro, b)]))),
        ("counterparts are matched", when(lambda c: FA([b], Imp(goodo(c)(b), S(c).matched(c.g.vs, h_o(c, b), b)), patterns=[S(c).gO(b)]))),
        ("children are counterparts", when(lambda c: FA([b, d], Imp(And(goodo(c)(b), SN.mem(S(c).ch[b], d)), goodo(c)(d)), patterns=[MP(S(c).gO(b), SN.mem(S(c).ch[b], d))]))),
    ]
    return sp


def flip(c):
    d = type(c)()
    d.__dict__.update(c.__dict__)
    d.res = Not(c.res)
    return d


def build():
    reg = base()
    reg.add(len_spec(trusted="proved by the check of P01"))
    reg.add(dag_equal_spec())
    eq = reg.add(eq_spec())
    ne = Spec(GRAPHPY, "Graph.__ne__", {"self": G, "other": G}, BOOL, requires=eq.requires,
              ghost={n: (MII, lambda ex, n=n: ex.call_ghosts["Graph.__eq__"][n]) for n in ("vs", "vo")},
              ensures=[(n.replace("if true", "if false").replace("true if", "false if"), lambda c, f=f: f(flip(c))) for n, f in eq.ensures])
    reg.add(ne)
    reg.assumptions += ["lists without repetitions that are mapped one to one into each other have the same length (finite pigeonhole principle, stated as an axiom instance)",
                        "numbers that tell the nodes of a graph apart have an inverse (definition of node_of_number)"]
    return reg
