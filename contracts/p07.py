"""P07: the union has the nodes and edges of both graphs and nothing more."""
from .p05 import *

MAPI = Map(Id("Node"), N)
OLD = Set(Id("Node"))
x_, y_, u_, v_ = z3.Consts("x y u v", NODE_S)
NULL = null("Node")
MFIELDS = list(FIELDS) + ["alloc:Node", "alloc:Frame"]


class U:
    """The state of a union; h0 is the heap when the operands are as given (they never change)."""

    def __init__(self, c, old, rs, ro, ch):
        self.c, self.old, self.rs, self.ro = c, old, rs, ro
        self.ch0, self.fr0 = ch, c.h0.arr("Node.frame")

    def G(self, n):
        return Or(greach(self.ch0, self.rs, n), greach(self.ch0, self.ro, n))

    def R(self, n):
        return Or(SN.mem(self.rs, n), SN.mem(self.ro, n))

    def new(self, h, n):
        return And(h.alive("Node", n), Not(self.old(n)))

    def mapped(self, M, h):
        """Mapped nodes are nodes of the operands; they are mapped to new nodes with equal frames."""
        f = h.arr("Node.frame")
        return FA([x_], Imp(M.has(x_), And(self.old(x_), self.G(x_), self.new(h, M.get(x_)), M.get(x_) != NULL, fkey(f[M.get(x_)]) == fkey(self.fr0[x_]))), patterns=[M.has(x_)])

    def mirror(self, h):
        ch, par = h.arr("Node.children"), h.arr("Node.parents")
        return And(FA([u_, v_], Imp(And(self.new(h, u_), SN.mem(ch[u_], v_)), And(self.new(h, v_), SN.mem(par[v_], u_))), patterns=[SN.mem(ch[u_], v_)]),
                   FA([u_, v_], Imp(And(self.new(h, v_), SN.mem(par[v_], u_)), And(self.new(h, u_), SN.mem(ch[u_], v_))), patterns=[SN.mem(par[v_], u_)]))

    def once(self, h):
        out = []
        for k in ("Node.children", "Node.parents"):
            a = h.arr(k)
            x, y = SN.at(a[u_], i_), SN.at(a[u_], j_)
            out.append(FA([u_, i_, j_], Imp(And(self.new(h, u_), 0 <= i_, i_ < j_, j_ < SN.len(a[u_])), x != y), patterns=[MP(x, y)]))
        return And(*out)

    def edge_src(self, M, u, v):
        return z3.Exists([x_, y_], And(M.has(x_), M.has(y_), M.get(x_) == u, M.get(y_) == v, SN.mem(self.ch0[x_], y_)))

    def from_edges(self, M, h):
        """Every edge between new nodes comes from an edge of an operand."""
        ch = h.arr("Node.children")
        return FA([u_, v_], Imp(And(self.new(h, u_), SN.mem(ch[u_], v_)), self.edge_src(M, u_, v_)), patterns=[SN.mem(ch[u_], v_)])

    def roots_apart(self, M):
        """Roots are not merged with other nodes."""
        return FA([x_, y_], Imp(And(M.has(x_), M.has(y_), M.get(x_) == M.get(y_)), self.R(x_) == self.R(y_)), patterns=[MP(M.has(x_), M.has(y_))])

    def base(self, M, h):
        return [("mapped nodes have new counterparts with equal frames", self.mapped(M, h)), ("child and parent lists of new nodes mirror each other", self.mirror(h)),
                ("child and parent lists of new nodes have no duplicates", self.once(h)), ("edges between new nodes come from edges of the operands", self.from_edges(M, h)),
                ("roots are merged with roots only", self.roots_apart(M))]

    def grown(self, M0, h0, M1, h1):
        c0, c1, f0, f1 = h0.arr("Node.children"), h1.arr("Node.children"), h0.arr("Node.frame"), h1.arr("Node.frame")
        return [("nodes stay mapped as they were", FA([x_], Imp(M0.has(x_), And(M1.has(x_), M1.get(x_) == M0.get(x_))), patterns=[M0.has(x_), M1.has(x_)])),
                ("edges are only added", FA([u_, v_], Imp(And(h0.alive("Node", u_), SN.mem(c0[u_], v_)), SN.mem(c1[u_], v_)), patterns=[SN.mem(c0[u_], v_), SN.mem(c1[u_], v_)])),
                ("nodes stay alive", FA([u_], Imp(h0.alive("Node", u_), h1.alive("Node", u_)), patterns=[h1.alive("Node", u_)])),
                ("frames stay", FA([u_], Imp(h0.alive("Node", u_), f1[u_] == f0[u_]), patterns=[f1[u_]])),
                ("the operands are unchanged", And(*[FA([x_], Imp(self.old(x_), h1.arr(k)[x_] == h0.arr(k)[x_]), patterns=[h1.arr(k)[x_]]) for k in FIELDS]))]

    def complete(self, M0, M1, h1, but=None):
        """The children of newly mapped nodes are mapped, and connected in the union."""
        ch = h1.arr("Node.children")
        g = (lambda x: z3.BoolVal(True)) if but is None else (lambda x: Not(but(x)))
        return FA([x_, y_], Imp(And(M1.has(x_), Not(M0.has(x_)), g(x_), SN.mem(self.ch0[x_], y_)), And(M1.has(y_), SN.mem(ch[M1.get(x_)], M1.get(y_)))), patterns=[MP(M1.has(x_), SN.mem(self.ch0[x_], y_))])

    def world(self, h):
        return [("the operands' nodes have their children", FA([x_], Imp(self.old(x_), h.arr("Node.children")[x_] == self.ch0[x_]), patterns=[h.arr("Node.children")[x_]])),
                ("children of the operands' nodes are the operands' nodes", FA([x_, y_], Imp(And(self.old(x_), SN.mem(self.ch0[x_], y_)), And(self.old(y_), y_ != NULL)), patterns=[SN.mem(self.ch0[x_], y_)])),
                ("the operands' nodes are alive", FA([x_], Imp(self.old(x_), h.alive("Node", x_)), patterns=[self.old(x_)])),
                ("no node of the operands has a root as a child", FA([x_, y_], Imp(And(self.G(x_), SN.mem(self.ch0[x_], y_)), Not(self.R(y_))), patterns=[SN.mem(self.ch0[x_], y_)]))]

    def list_ok(self, s, parent):
        return FA([x_], Imp(SN.mem(s, x_), And(self.old(x_), x_ != NULL, self.G(x_), self.R(x_) == (parent == NULL))), patterns=[SN.mem(s, x_)])

    def owned(self, M, s, owner, parent):
        return Imp(parent != NULL, FA([x_], Imp(SN.mem(s, x_), And(SN.mem(self.ch0[owner], x_), M.has(owner), M.get(owner) == parent)), patterns=[SN.mem(s, x_)]))

    def done(self, M, h, s, upto, parent, out):
        ch = h.arr("Node.children")
        x = SN.at(s, j_)
        return FA([j_], Imp(And(0 <= j_, j_ < upto), And(M.has(x), SN.mem(out, M.get(x)), Imp(parent != NULL, SN.mem(ch[parent], M.get(x))))), patterns=[x])

    def all_done(self, M, h, s, parent, out):
        ch = h.arr("Node.children")
        return FA([x_], Imp(SN.mem(s, x_), And(M.has(x_), SN.mem(out, M.get(x_)), Imp(parent != NULL, SN.mem(ch[parent], M.get(x_))))), patterns=[SN.mem(s, x_)])

    def from_lists(self, M, out, s, o):
        x = z3.Exists([x_], And(Or(SN.mem(s, x_), SN.mem(o, x_)), M.has(x_), M.get(x_) == SN.at(out, i_)))
        return FA([i_], Imp(And(0 <= i_, i_ < SN.len(out)), x), patterns=[SN.at(out, i_)])


def memo(f):
    # the clauses of one context are built together
    def g(c):
        d = c.__dict__.setdefault("_memo", {})
        if f not in d:
            d[f] = f(c)
        return d[f]
    return g


def merge_spec():
    def S(c):
        return U(c, lambda n: c.gp.old.has(n), c.h0.roots(c.cap.self), c.h0.roots(c.cap.other), c.gp.ch.val)

    @memo
    def post(c):
        u = S(c)
        M0, M1 = c.cap.old_to_new, c.capo.old_to_new
        s, o = c.p.self_children, c.p.other_children
        return u.base(M1, c.h) + u.grown(M0, c.h0, M1, c.h) + [
            ("the children of newly mapped nodes are connected", u.complete(M0, M1, c.h)),
            ("the nodes given are mapped and connected to the parent", And(u.all_done(M1, c.h, s, c.p.parent, c.res), u.all_done(M1, c.h, o, c.p.parent, c.res))),
            ("the result lists their counterparts only", u.from_lists(M1, c.res, s, o))]
    names = ["mapped nodes have new counterparts with equal frames", "child and parent lists of new nodes mirror each other", "child and parent lists of new nodes have no duplicates",
             "edges between new nodes come from edges of the operands", "roots are merged with roots only",
             "nodes stay mapped as they were", "edges are only added", "nodes stay alive", "frames stay", "the operands are unchanged",
             "the children of newly mapped nodes are connected", "the nodes given are mapped and connected to the parent", "the result lists their counterparts only"]

    @memo
    def inv(c):
        u = S(c)
        M0, M1 = c.cap.old_to_new, c.v.old_to_new
        s, o = c.p.self_children, c.p.other_children
        out = c.v.new_children
        if isinstance(out, tuple):
            out = SN.empty
        its = []
        pos = []
        for name, child, lst in (("self_children", "self_child", s), ("other_children", "other_child", o)):
            seq, p = c.v.__getattr__(name)
            x = c.v.__getattr__(child)
            x = NULL if x is None else x
            if seq is None:
                p = z3.IntVal(0)
                its.append(x == NULL)
            n = SN.len(lst)
            its.append(And(0 <= p, p <= n, Or(And(x == NULL, p == n), And(x != NULL, p >= 1, x == SN.at(lst, p - 1)))))
            if seq is not None:
                its.append(seq.x == lst)
            pos.append(If(x == NULL, n, p - 1))
        return u.base(M1, c.h) + u.grown(M0, c.h0, M1, c.h) + [
            ("the children of newly mapped nodes are connected", u.complete(M0, M1, c.h)),
            ("the first nodes are mapped and connected to the parent", And(u.done(M1, c.h, s, pos[0], c.p.parent, out), u.done(M1, c.h, o, pos[1], c.p.parent, out))),
            ("the result lists counterparts only", u.from_lists(M1, out, s, o)),
            ("the iterators are where they should be", And(*its))]
    inames = names[:11] + ["the first nodes are mapped and connected to the parent", "the result lists counterparts only", "the iterators are where they should be"]
    li = [(n, lambda c, i=i: inv(c)[i][1]) for i, n in enumerate(inames)]

    def after(which):
        def f(c):
            r = [c.v.__getattr__(w) for w in which]
            return And(*[(x == NULL if x is not None else z3.BoolVal(True)) for x in r])
        return f
    bnames = names[:5]

    @memo
    def pre(c):
        u = S(c)
        M = c.cap.old_to_new
        s, o, p = c.p.self_children, c.p.other_children, c.p.parent
        return u.world(c.h0) + u.base(M, c.h0) + [
            ("the nodes given are nodes of the operands, all roots or none", And(u.list_ok(s, p), u.list_ok(o, p))),
            ("the nodes given are children of nodes mapped to the parent", And(u.owned(M, s, c.gp.sa, p), u.owned(M, o, c.gp.oa, p))),
            ("the parent is a new node", Imp(p != NULL, u.new(c.h0, p)))]
    pnames = ["the operands' nodes have their children", "children of the operands' nodes are the operands' nodes", "the operands' nodes are alive", "no node of the operands has a root as a child"] + bnames + [
        "the nodes given are nodes of the operands, all roots or none", "the nodes given are children of nodes mapped to the parent", "the parent is a new node"]

    def ghosts(c):
        g = lambda n: V(N, c.v.__getattr__(n)) if c.v.__getattr__(n) is not None else V(N, NULL)
        return {"ch": V(Map(Id("Node"), NS_), c.gp.ch), "old": V(OLD, c.gp.old), "sa": g("self_child"), "oa": g("other_child")}
    sp = Spec(GRAPHPY, "Graph.union._merge", {"self_children": NS_, "other_children": NS_, "parent": N}, NS_, nullable=["parent"], captures={"self": G, "other": G, "old_to_new": MAPI},
              modifies=MFIELDS + ["cap:old_to_new"], ghost_params={"ch": Map(Id("Node"), NS_), "old": OLD, "sa": N, "oa": N}, ghost_args={"Graph.union._merge": ghosts},
              requires=[(n, lambda c, i=i: pre(c)[i][1]) for i, n in enumerate(pnames)],
              entry=lambda c: greach_axioms(S(c).ch0, S(c).rs) + greach_axioms(S(c).ch0, S(c).ro),
              ensures=[(n, lambda c, i=i: post(c)[i][1]) for i, n in enumerate(names)],
              loops={0: li, 1: li + [("one list is used up", lambda c: z3.BoolVal(True))], 2: li + [("the list of self is used up", after(["self_child"]))]})
    sp.name_calls = True
    return sp


def connect_spec():
    def linked(c):
        return Or(c.p.parent == NULL, SN.mem(c.h0.parents(c.p.new_node), c.p.parent))

    def arr(k, at, what):
        def f(c):
            old, new = c.h0.arr(k), c.h.arr(k)
            return new == If(linked(c), old, z3.Store(old, at(c), SN.app(old[at(c)], what(c))))
        return f
    par, new = (lambda c: c.p.parent), (lambda c: c.p.new_node)
    return Spec(GRAPHPY, "Graph.union._merge.connect", {"parent": N, "new_node": N}, NONE, nullable=["parent"], captures={"new_children": NS_}, modifies=["Node.children", "Node.parents", "cap:new_children"],
                ensures=[("the node is listed", lambda c: c.capo.new_children == SN.app(c.cap.new_children, c.p.new_node)),
                         ("the node becomes a child of the parent, unless it is one", arr("Node.children", par, new)),
                         ("the parent becomes a parent of the node, unless it is one", arr("Node.parents", new, par))])


def union_spec():
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)

    def ch(c):
        return c.h0.arr("Node.children")

    def rs(c):
        return c.h0.roots(c.p.self), c.h0.roots(c.p.other)

    def G1(c, n):
        return Or(*[greach(ch(c), r, n) for r in rs(c)])

    def ghosts(c):
        return {"ch": V(Map(Id("Node"), NS_), MapC(z3.K(NODE_S, T_), ch(c))), "old": V(OLD, MapC(c.h0.arr("alive.Node"))), "sa": V(N, NULL), "oa": V(N, NULL)}

    def M(c):
        return c.g.old_to_new

    def new(c, h, n):
        return And(h.alive("Node", n), Not(c.h0.alive("Node", n)))

    def image(m, n):
        return z3.Exists([x_], And(m.has(x_), m.get(x_) == n))

    def reaches(c, n):
        return greach(c.h.arr("Node.children"), c.h.roots(c.res), n)

    def hint(c):
        m = M(c)
        h = [greach_induction(ch(c), r, lambda n, r=r: And(greach(ch(c), r, n), m.has(n), reaches(c, m.get(n)))) for r in rs(c)]
        return And(*h)

    def at_enum(c):
        a = c.h.arr("Node.children"), c.h.roots(c.call.self)
        m = c.v.old_to_new
        return And(*greach_axioms(*a), greach_induction(*a, lambda n: new(c, c.h, n)), greach_induction(*a, lambda n: image(m, n)))
    fr = lambda c: (c.h0.arr("Node.frame"), c.h.arr("Node.frame"))

    def edges_kept(c):
        m, ch1 = M(c), c.h.arr("Node.children")
        return FA([x_, y_], Imp(And(G1(c, x_), SN.mem(ch(c)[x_], y_)), SN.mem(ch1[m.get(x_)], m.get(y_))), patterns=[SN.mem(ch(c)[x_], y_)])

    def no_more_edges(c):
        m, ch1 = M(c), c.h.arr("Node.children")
        return FA([u_, v_], Imp(And(reaches(c, u_), SN.mem(ch1[u_], v_)), z3.Exists([x_, y_], And(m.has(x_), m.has(y_), m.get(x_) == u_, m.get(y_) == v_, SN.mem(ch(c)[x_], y_)))), patterns=[MP(reaches(c, u_), SN.mem(ch1[u_], v_))])

    def roots_kept(c):
        m, r1 = M(c), c.h.roots(c.res)
        return And(*[FA([x_], Imp(SN.mem(r, x_), SN.mem(r1, m.get(x_))), patterns=[SN.mem(r, x_)]) for r in rs(c)])

    def no_more_roots(c):
        m, r1 = M(c), c.h.roots(c.res)
        return FA([u_], Imp(SN.mem(r1, u_), z3.Exists([x_], And(m.has(x_), m.get(x_) == u_, Or(*[SN.mem(r, x_) for r in rs(c)])))), patterns=[SN.mem(r1, u_)])

    def mirrored(c):
        ch1, p1 = c.h.arr("Node.children"), c.h.arr("Node.parents")
        return FA([u_, v_], Imp(reaches(c, u_), And(Imp(SN.mem(ch1[u_], v_), SN.mem(p1[v_], u_)), Imp(SN.mem(p1[u_], v_), SN.mem(ch1[v_], u_)))), patterns=[MP(reaches(c, u_), SN.mem(ch1[u_], v_)), MP(reaches(c, u_), SN.mem(p1[u_], v_))])

    def single(c):
        out = []
        for k in ("Node.children", "Node.parents"):
            a = c.h.arr(k)
            x, y = SN.at(a[u_], i_), SN.at(a[u_], j_)
            out.append(FA([u_, i_, j_], Imp(And(reaches(c, u_), 0 <= i_, i_ < j_, j_ < SN.len(a[u_])), x != y), patterns=[MP(reaches(c, u_), x, y)]))
        return And(*out)
    sp = Spec(GRAPHPY, "Graph.union", {"self": G, "other": G, "old_to_new": MAPI}, G, views={"mapping given": {}, "mapping not given": {"old_to_new": None}},
              modifies=MFIELDS + ["Graph.roots", "Graph.node_ordering", "alloc:Graph", "param:old_to_new"],
              entry=lambda c: closed(c) + greach_axioms(ch(c), rs(c)[0]) + greach_axioms(ch(c), rs(c)[1]) + [greach_induction(ch(c), r, lambda n: c.h0.alive("Node", n)) for r in rs(c)],
              requires=[("the mapping given is empty", lambda c: c.p.old_to_new.dom == z3.K(NODE_S, F_) if c.given("old_to_new") else True),
                        ("no reachable node has a root as a child", lambda c: FA([x_, y_], Imp(And(G1(c, x_), SN.mem(ch(c)[x_], y_)), And(*[Not(SN.mem(r, y_)) for r in rs(c)])), patterns=[SN.mem(ch(c)[x_], y_)]))],
              ghost={"old_to_new": (MAPI, lambda ex: ex.frame.vars["old_to_new"])}, ghost_args={"Graph.union._merge": ghosts},
              ensures=[("the union is a new graph", lambda c: And(Not(c.h0.alive("Graph", c.res)), c.h.alive("Graph", c.res))),
                       ("every node of the operands is mapped, and only they are", lambda c: FA([x_], M(c).has(x_) == G1(c, x_), patterns=[M(c).has(x_), greach(ch(c), rs(c)[0], x_), greach(ch(c), rs(c)[1], x_)])),
                       ("nodes are mapped to new nodes with equal frames", lambda c: FA([x_], Imp(M(c).has(x_), And(new(c, c.h, M(c).get(x_)), fkey(fr(c)[1][M(c).get(x_)]) == fkey(fr(c)[0][x_]))), patterns=[M(c).has(x_)])),
                       ("nodes are mapped to nodes of the union", lambda c: FA([x_], Imp(M(c).has(x_), reaches(c, M(c).get(x_))), patterns=[M(c).has(x_)])),
                       ("every node of the union stands for a node of an operand", lambda c: FA([u_], Imp(reaches(c, u_), image(M(c), u_)), patterns=[reaches(c, u_)])),
                       ("every edge of the operands is an edge of the union", edges_kept),
                       ("every edge of the union is an edge of an operand", no_more_edges),
                       ("every root of the operands is a root of the union", roots_kept),
                       ("every root of the union is a root of an operand", no_more_roots),
                       ("roots are merged with roots only", lambda c: U(c, None, *rs(c), ch(c)).roots_apart(M(c))),
                       ("child and parent lists of the union mirror each other", mirrored),
                       ("child and parent lists of the union have no duplicates", single),
                       ("the operands' nodes are unchanged", originals),
                       ("other graphs are unchanged", lambda c: FA([g_], Imp(c.h0.alive("Graph", g_), And(c.h.arr("Graph.roots")[g_] == c.h0.arr("Graph.roots")[g_], c.h.arr("Graph.node_ordering")[g_] == c.h0.arr("Graph.node_ordering")[g_])), patterns=[c.h.arr("Graph.roots")[g_], c.h.arr("Graph.node_ordering")[g_]])),
                       ("the mapping given is the one filled", lambda c: And(c.o.old_to_new.dom == M(c).dom, c.o.old_to_new.val == M(c).val) if c.given("old_to_new") else True)])
    sp.axiom_hints = hint
    sp.call_hints = {"Graph.enumerate_traverse": at_enum}
    sp.name_calls = True
    return sp


def build():
    reg = base()
    travs(reg)
    reg.add(enum_traverse_spec(trusted="proved by the check of P02"))
    reg.add(frame_copy())
    reg.add(connect_spec())
    reg.add(merge_spec())
    reg.add(union_spec())
    reg.assumptions.append(CLOSED)
    return reg
