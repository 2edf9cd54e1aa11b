"""P02: numbering gives nodes 0..n-1 in traversal order, and depths count edges."""
from .trav import *

VSET = Set(N)


def roots(c):
    return c.h0.roots(c.g_ if hasattr(c, "g_") else c.p.self)


def well_rooted(ch, r):
    """No reachable node has a root as a child."""
    return FA([n_, m_], Imp(And(greach(ch, r, n_), SN.mem(ch[n_], m_)), Not(SN.mem(r, m_))), patterns=[MP(greach(ch, r, n_), SN.mem(ch[n_], m_))])


def numbered_apart(ch, r, nid):
    """Different reachable nodes have different numbers."""
    return FA([n_, m_], Imp(And(greach(ch, r, n_), greach(ch, r, m_), nid[n_] == nid[m_]), n_ == m_), patterns=[MP(greach(ch, r, n_), greach(ch, r, m_))])


def one_more(ch, r, d, n, also=None):
    """n has a reachable parent of which it is one deeper."""
    p = z3.Const("p", NODE_S)
    return z3.Exists([p], And(greach(ch, r, p), SN.mem(ch[p], n), d[n] == d[p] + 1, also(p) if also else True))


def depth_ok(ch, r, d):
    return FA([n_], Imp(greach(ch, r, n_), If(SN.mem(r, n_), d[n_] == 0, one_more(ch, r, d, n_))), patterns=[greach(ch, r, n_)])


def iter_depth_spec():
    def syms(c):
        return c.h0.arr("Node.children"), c.h0.roots(c.cap.self), c.h0.arr("Node.nid")

    def vis_ok(c, vs):
        ch, r, nid = syms(c)
        q = z3.Int("q")
        return FA([q], Imp(vs.has(q), And(greach(ch, r, vs.key(q)), nid[vs.key(q)] == q)), patterns=[vs.has(q)])

    def clauses(c, v0, v1, d0, d1, children):
        ch, r, nid = syms(c)
        me = c.p.node
        V0, V1 = (lambda n: v0.has(nid[n])), (lambda n: v1.has(nid[n]))
        new = lambda n: And(greach(ch, r, n), V1(n), Not(V0(n)))
        return [
            ("the nodes seen are reachable", vis_ok(c, v1)),
            ("nodes seen stay seen", FA([n_], Imp(V0(n_), V1(n_)), patterns=[nid[n_]])),
            ("the children are seen", children(V1)),
            ("the children of every newly seen node are seen", FA([n_, c_], Imp(And(new(n_), SN.mem(ch[n_], c_)), V1(c_)), patterns=[MP(nid[n_], SN.mem(ch[n_], c_))])),
            ("newly seen nodes are not roots", FA([n_], Imp(new(n_), Not(SN.mem(r, n_))), patterns=[nid[n_]])),
            ("newly seen nodes are one deeper than a parent", FA([n_], Imp(new(n_), one_more(ch, r, d1, n_, lambda p: Or(p == me, V1(p)))), patterns=[nid[n_]])),
            ("no other depth changes", FA([n_], Imp(Not(new(n_)), d1[n_] == d0[n_]), patterns=[d1[n_]])),
        ]

    def post(i):
        def f(c):
            ch = c.h0.arr("Node.children")
            kids = lambda V1: FA([c_], Imp(SN.mem(ch[c.p.node], c_), V1(c_)), patterns=[SN.mem(ch[c.p.node], c_)])
            return clauses(c, c.p.visited, c.o.visited, c.h0.arr("Node.depth"), c.h.arr("Node.depth"), kids)[i][1]
        return f

    def inv(i):
        def f(c):
            kids = lambda V1: FA([j_], Imp(And(0 <= j_, j_ < c.i), V1(SN.at(c.seq, j_))), patterns=[SN.at(c.seq, j_)])
            return clauses(c, c.p.visited, c.v.visited, c.h0.arr("Node.depth"), c.h.arr("Node.depth"), kids)[i][1]
        return f
    names = ["the nodes seen are reachable", "nodes seen stay seen", "the children are seen", "the children of every newly seen node are seen", "newly seen nodes are not roots",
             "newly seen nodes are one deeper than a parent", "no other depth changes"]

    def entry(c):
        ch, r, _ = syms(c)
        return greach_axioms(ch, r)
    return Spec(GRAPHPY, "Graph.enumerate_depth._iter_depth", {"node": N, "visited": VSET}, NONE, captures={"self": G}, modifies=["Node.depth", "param:visited"], entry=entry,
                requires=[("the node is reachable", lambda c: greach(syms(c)[0], syms(c)[1], c.p.node)),
                          ("the node is a root or was seen", lambda c: Or(SN.mem(syms(c)[1], c.p.node), c.p.visited.has(syms(c)[2][c.p.node]))),
                          ("no reachable node has a root as a child", lambda c: well_rooted(*syms(c)[:2])),
                          ("reachable nodes have different numbers", lambda c: numbered_apart(*syms(c))),
                          ("the nodes seen are reachable", lambda c: vis_ok(c, c.p.visited))],
                ensures=[(n, post(i)) for i, n in enumerate(names)], loops={0: [(n, inv(i)) for i, n in enumerate(names)]})


def enum_depth_spec(trusted=None):
    def S(c):
        return c.h0.arr("Node.children"), c.h0.roots(c.p.self), c.h0.arr("Node.nid")

    def hint(c):
        ch, r, nid = S(c)
        return []

    def inv(c):
        ch, r, nid = S(c)
        vs, d = c.v.visited, c.h.arr("Node.depth")
        d0 = c.h0.arr("Node.depth")
        if isinstance(vs, tuple):
            vs = MapC(z3.K(I, z3.BoolVal(False)), None, z3.K(I, null("Node")))
        V = lambda n: vs.has(nid[n])
        q = z3.Int("q")
        return [
            ("the nodes seen are reachable", FA([q], Imp(vs.has(q), And(greach(ch, r, vs.key(q)), nid[vs.key(q)] == q)), patterns=[vs.has(q)])),
            ("no root is seen", FA([n_], Imp(And(greach(ch, r, n_), V(n_)), Not(SN.mem(r, n_))), patterns=[nid[n_]])),
            ("the children of the nodes seen are seen", FA([n_, c_], Imp(And(greach(ch, r, n_), V(n_), SN.mem(ch[n_], c_)), V(c_)), patterns=[MP(nid[n_], SN.mem(ch[n_], c_))])),
            ("the children of the first roots are seen", FA([j_, c_], Imp(And(0 <= j_, j_ < c.i, SN.mem(ch[SN.at(r, j_)], c_)), V(c_)), patterns=[SN.mem(ch[SN.at(r, j_)], c_)])),
            ("the first roots have depth 0", FA([j_], Imp(And(0 <= j_, j_ < c.i), d[SN.at(r, j_)] == 0), patterns=[SN.at(r, j_)])),
            ("nodes seen are one deeper than a parent", FA([n_], Imp(And(greach(ch, r, n_), V(n_)), one_more(ch, r, d, n_, lambda p: Or(V(p), And(SN.mem(r, p), d[p] == 0)))), patterns=[nid[n_]])),
            ("other depths unchanged", FA([n_], Imp(Not(greach(ch, r, n_)), d[n_] == d0[n_]), patterns=[d[n_]])),
        ]
    names = ["the nodes seen are reachable", "no root is seen", "the children of the nodes seen are seen", "the children of the first roots are seen", "the first roots have depth 0",
             "nodes seen are one deeper than a parent", "other depths unchanged"]

    def closing(c):
        ch, r, nid = S(c)
        return []
    sp = Spec(GRAPHPY, "Graph.enumerate_depth", {"self": G}, NONE, modifies=["Node.depth"], entry=lambda c: greach_axioms(*S(c)[:2]),
              requires=[("no reachable node has a root as a child", lambda c: well_rooted(*S(c)[:2])), ("reachable nodes have different numbers", lambda c: numbered_apart(*S(c)))],
              ensures=[("roots have depth 0 and every other node is one deeper than a parent", lambda c: depth_ok(*S(c)[:2], c.h.arr("Node.depth"))),
                       ("no depth outside the graph changes", lambda c: FA([n_], Imp(Not(greach(*S(c)[:2], n_)), c.h.arr("Node.depth")[n_] == c.h0.arr("Node.depth")[n_]), patterns=[c.h.arr("Node.depth")[n_]]))],
              loops={0: [(n, lambda c, i=i: inv(c)[i][1]) for i, n in enumerate(names)]}, trusted=trusted)

    def hints(c):
        ch, r, nid = S(c)
        vs = c.v.visited
        return greach_induction(ch, r, lambda n: And(greach(ch, r, n), Or(SN.mem(r, n), vs.has(nid[n]))))
    sp.axiom_hints = hints
    return sp


def order_of(c, kind):
    d = Dfs(c, kind)
    rs = d.sorted(c.h0.roots(c.p.self))
    return d.LO(z3.BoolVal(True), EMPTY, SN.empty, rs, SN.len(rs))


def in_order(s, nid):
    return FA([i_], Imp(And(0 <= i_, i_ < SN.len(s)), nid[SN.at(s, i_)] == i_), patterns=[SN.at(s, i_)])


def by_order(c, f):
    """f holds for the sequence in which the traversal that the graph asks for yields the nodes."""
    o = c.h0.node_ordering(c.p.self)
    return And(Imp(o, f(order_of(c, "node number"))), Imp(Not(o), f(order_of(c, "frame"))))


def enum_traverse_spec(trusted=None):
    def S(c):
        return c.h0.arr("Node.children"), c.h0.roots(c.p.self)

    def post(c, nid):
        return by_order(c, lambda s: in_order(s, nid))

    def inv(what):
        def f(c):
            nid, s = c.h.arr("Node.nid"), c.seq
            if what == "numbered":
                return FA([j_], Imp(And(0 <= j_, j_ < c.i), nid[SN.at(s, j_)] == j_), patterns=[SN.at(s, j_)])
            if what == "others":
                return FA([n_], Or(And(SN.mem(s, n_), SN.idx(s, n_) < c.i), nid[n_] == c.h0.arr("Node.nid")[n_]), patterns=[nid[n_]])
        return f
    li = [("the first nodes have their numbers", inv("numbered")), ("no other number changes", inv("others"))]
    reachable = lambda c: by_order(c, lambda s: FA([n_], greach(*S(c), n_) == SN.mem(s, n_), patterns=[greach(*S(c), n_)]))
    return Spec(GRAPHPY, "Graph.enumerate_traverse", {"self": G}, NONE, modifies=["Node.nid", "Node.depth"], entry=lambda c: greach_axioms(*S(c)),
                requires=[("no reachable node has a root as a child", lambda c: well_rooted(*S(c)))],
                ensures=[("the nodes have the numbers 0 to n-1 in the order of the traversal", lambda c: post(c, c.h.arr("Node.nid"))),
                         ("exactly the reachable nodes are numbered", reachable),
                         ("no two nodes share a number", lambda c: numbered_apart(*S(c), c.h.arr("Node.nid"))),
                         ("no number outside the graph changes", lambda c: FA([n_], Imp(Not(greach(*S(c), n_)), c.h.arr("Node.nid")[n_] == c.h0.arr("Node.nid")[n_]), patterns=[c.h.arr("Node.nid")[n_]])),
                         ("roots have depth 0 and every other node is one deeper than a parent", lambda c: depth_ok(*S(c), c.h.arr("Node.depth"))),
                         ("no depth outside the graph changes", lambda c: FA([n_], Imp(Not(greach(*S(c), n_)), c.h.arr("Node.depth")[n_] == c.h0.arr("Node.depth")[n_]), patterns=[c.h.arr("Node.depth")[n_]]))],
                loops={0: li, 1: li}, trusted=trusted)


def check_spec():
    def holds(c):
        return by_order(c, lambda s: in_order(s, c.h0.arr("Node.nid")))
    def all_there(c):
        g = lambda n: greach(c.h0.arr("Node.children"), c.h0.roots(c.p.self), n)
        return by_order(c, lambda s: FA([n_], g(n_) == SN.mem(s, n_), patterns=[g(n_)]))
    return Spec(GRAPHPY, "Graph._check_enumerate_traverse", {"self": G}, Opt(BOOL),
                ensures=[("true only if the numbers and depths are right already", lambda c: Imp(And(Not(c.res[0]), c.res[1]), And(holds(c), all_there(c), depth_ok(c.h0.arr("Node.children"), c.h0.roots(c.p.self), c.h0.arr("Node.depth")))))])


def tree_depth():
    ch, r = z3.Const("ch", ChArr), z3.Const("r", O_S)
    d, e = z3.Const("depth", z3.ArraySort(NODE_S, I)), z3.Const("edges", z3.ArraySort(NODE_S, I))
    g = lambda n: greach(ch, r, n)
    one_parent = FA([n_, m_, c_], Imp(And(g(n_), g(m_), SN.mem(ch[n_], c_), SN.mem(ch[m_], c_)), n_ == m_), patterns=[MP(SN.mem(ch[n_], c_), SN.mem(ch[m_], c_))])
    edges = [FA([n_], Imp(SN.mem(r, n_), e[n_] == 0), patterns=[SN.mem(r, n_)]), FA([n_, c_], Imp(And(g(n_), SN.mem(ch[n_], c_)), e[c_] == e[n_] + 1), patterns=[SN.mem(ch[n_], c_)])]
    same = lambda n: And(g(n), d[n] == e[n])
    return (SN.axioms() + greach_axioms(ch, r) + [well_rooted(ch, r), depth_ok(ch, r, d), one_parent] + edges + [greach_induction(ch, r, same)],
            FA([n_], Imp(g(n_), d[n_] == e[n_])))


def travs(reg):
    for kind, name in (("frame", "traverse"), ("node number", "node_order_traverse")):
        sp = reg.add(graph_traverse(kind, name, trusted="proved by the check of P01"))
        if kind == "node number":
            # the generator sorts the children of a node when it gets there: numbers of nodes already yielded may differ by then
            def ok(s, now, before):
                return FA([n_], Or(now[n_] == before[n_], SN.mem(s, n_)), patterns=[now[n_]])
            sp.lazy_ok["Node.nid"] = ok
    reg.assumptions.append("renumbering while a node-order traversal is running does not disturb it: only nodes already yielded are renumbered, and they are skipped when met again")


def build():
    reg = base()
    travs(reg)
    reg.add(check_spec())
    reg.add(iter_depth_spec())
    reg.add(enum_depth_spec())
    reg.add(enum_traverse_spec())
    reg.lemma("in a tree the depth is the number of edges from the root", tree_depth)
    return reg
