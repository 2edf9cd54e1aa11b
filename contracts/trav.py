"""Contracts of the traversals (node.py, graph.py)."""
from .model import *

VIS = Map(Id("Node"), INT)
pre_order = lambda o: o == strlit("pre")

# depth-first search as a mathematical function of the child lists, the sibling order, the visited set and the output
O_S = sort_of(NS_)


def dfs_syms(kind, key_sorts):
    ks = list(key_sorts)
    return {
        "V": fn("dfsV_" + kind, ChArr, *ks, NodeSet, NODE_S, NodeSet),
        "O": fn("dfsO_" + kind, B, ChArr, *ks, NodeSet, O_S, NODE_S, O_S),
        "LV": fn("dfsLV_" + kind, ChArr, *ks, NodeSet, O_S, I, NodeSet),
        "LO": fn("dfsLO_" + kind, B, ChArr, *ks, NodeSet, O_S, O_S, I, O_S),
    }


def sib_order(c, kind):
    """Sorting symbol and heap arrays of the sibling order of a traversal."""
    ex = c.ex
    if kind == "frame":
        f, comps, lt = ex.spec_sort(N, lambda h, x: V(Tup(F, Id("Node")), [V(F, h("Node.frame")[x]), V(Id("Node"), x)]))
    else:
        f, comps, lt = ex.spec_sort(N, lambda h, x: V(INT, h("Node.nid")[x]))
    return f, [c.h0.arr(k, i) for k, i, _ in comps], comps, lt


class Dfs:
    def __init__(self, c, kind):
        self.f, self.ks, self.comps, self.lt = sib_order(c, kind)
        self.ch = c.h0.arr("Node.children")
        self.s = dfs_syms(kind, [k.sort() for k in self.ks])

    def V(self, D, n):
        return self.s["V"](self.ch, *self.ks, D, n)

    def O(self, pre, D, O, n):
        return self.s["O"](pre, self.ch, *self.ks, D, O, n)

    def LV(self, D, s, k):
        return self.s["LV"](self.ch, *self.ks, D, s, k)

    def LO(self, pre, D, O, s, k):
        return self.s["LO"](pre, self.ch, *self.ks, D, O, s, k)

    def sorted(self, s):
        return self.f(s, *self.ks)

    def unfold(self, pre, D, O, n):
        """Definition of the search from one node."""
        ch = self.sorted(self.ch[n])
        D1 = z3.Store(D, n, z3.BoolVal(True))
        ln = SN.len(ch)
        O1 = If(pre, SN.app(O, n), O)
        O2 = self.LO(pre, D1, O1, ch, ln)
        return [Imp(D[n], And(self.V(D, n) == D, self.O(pre, D, O, n) == O)),
                Imp(Not(D[n]), And(self.V(D, n) == self.LV(D1, ch, ln), self.O(pre, D, O, n) == If(pre, O2, SN.app(O2, n))))]

    def unfold_list(self):
        D = z3.Const("D", NodeSet)
        O, s = z3.Consts("O s", O_S)
        p = z3.Bool("p")
        LV, LO = self.LV, self.LO
        x = SN.at(s, k_)
        return [
            FA([D, s], LV(D, s, 0) == D, patterns=[LV(D, s, 0)]),
            FA([p, D, O, s], LO(p, D, O, s, 0) == O, patterns=[LO(p, D, O, s, 0)]),
            FA([D, s, k_], Imp(And(k_ >= 0, k_ < SN.len(s)), LV(D, s, k_ + 1) == self.V(LV(D, s, k_), x)), patterns=[MP(LV(D, s, k_), x)]),
            FA([p, D, O, s, k_], Imp(And(k_ >= 0, k_ < SN.len(s)), LO(p, D, O, s, k_ + 1) == self.O(p, LV(D, s, k_), LO(p, D, O, s, k_), x)), patterns=[MP(LO(p, D, O, s, k_), x)]),
        ]


acyclic = fn("acyclic", ChArr, B)           # some rank grows along every edge
rank_ = fn("rank_of", ChArr, NODE_S, I)


first_ = fn("first_position", O_S, NODE_S, I)


def acyclic_def(ch, me=None):
    x, y = z3.Consts("x y", NODE_S)
    s = z3.Const("s", O_S)
    f = first_(s, x)
    out = [FA([s, x], Imp(SN.mem(s, x), And(0 <= f, f < SN.len(s), SN.at(s, f) == x)), patterns=[f]),
           FA([s, i_], Imp(And(0 <= i_, i_ < SN.len(s)), first_(s, SN.at(s, i_)) <= i_), patterns=[SN.at(s, i_)]),
           Imp(acyclic(ch), FA([x, y], Imp(SN.mem(ch[x], y), rank_(ch, x) < rank_(ch, y)), patterns=[SN.mem(ch[x], y)]))]
    if me is not None:
        out.append(Imp(acyclic(ch), reach_induction(ch, me, lambda n: rank_(ch, n) >= rank_(ch, me))))
    return out


def children_first(ch, pre, D0, out0, out, over=None):
    """In post-order, on graphs without cycles, every child comes before its parents (or was visited before)."""
    first = lambda c, i: And(SN.mem(out, c), first_(out, c) < i)
    x = SN.at(out, i_)
    return Imp(And(Not(pre), acyclic(ch)), FA([i_, c_], Imp(And(SN.len(out0) <= i_, i_ < SN.len(out), SN.mem(ch[x], c_)), Or(D0[c_], first(c_, i_))), patterns=[SN.mem(ch[x], c_)]))


FIRST = "in post-order, without cycles, children come before their parents"
READS = {"frame": ("Graph.roots", "Node.children", "Node.frame"), "node number": ("Graph.roots", "Node.children", "Node.nid")}
einto = fn("einto", ChArr, NodeSet, NODE_S, I)  # edges from the nodes of a set into a node


def einto_store(ch, D, m):
    D1 = z3.Store(D, m, z3.BoolVal(True))
    return Imp(Not(D[m]), FA([n_], einto(ch, D1, n_) == einto(ch, D, n_) + SN.occ(ch[m], SN.len(ch[m]), n_), patterns=[einto(ch, D1, n_)]))


EMPTY = z3.K(NODE_S, z3.BoolVal(False))


def vis0(c):
    """Visited nodes at entry: (domain, counts)."""
    if c.given("visited"):
        return c.p.visited.dom, c.p.visited.val
    return EMPTY, z3.K(NODE_S, z3.IntVal(0))


def cnt0(c, n):
    d, v = vis0(c)
    return If(d[n], v[n], 0)


def common(c, D0, D1, V1, out0, out, start, reached):
    """Clauses shared by the postconditions of a node's and of a graph's traversal; start(n): times n was a starting point."""
    ch = c.h0.arr("Node.children")
    L0 = SN.len(out0)
    new = lambda n: And(D1[n], Not(D0[n]))
    return [
        ("only appends to what was yielded", And(L0 <= SN.len(out), FA([i_], Imp(And(0 <= i_, i_ < L0), SN.at(out, i_) == SN.at(out0, i_)), patterns=[SN.at(out, i_), SN.at(out0, i_)]))),
        ("yields newly visited nodes only", FA([i_], Imp(And(L0 <= i_, i_ < SN.len(out)), new(SN.at(out, i_))), patterns=[SN.at(out, i_)])),
        ("yields each node once", distinct(out, L0)),
        ("yields every newly visited node", FA([n_], Imp(new(n_), SN.mem(out, n_)), patterns=[D1[n_]])),
        ("forgets no visit", FA([n_], Imp(D0[n_], D1[n_]), patterns=[D0[n_]])),
        ("visits the children of every node it visits", FA([n_, c_], Imp(And(new(n_), SN.mem(ch[n_], c_)), D1[c_]), patterns=[MP(D1[n_], SN.mem(ch[n_], c_))])),
        ("visits reachable nodes only", FA([n_], Imp(new(n_), reached(n_)), patterns=[D1[n_]])),
        ("counts how often each node was reached", FA([n_], If(D1[n_], V1[n_], 0) == cnt0(c, n_) + start(n_) + einto(ch, D1, n_) - einto(ch, D0, n_), patterns=[D1[n_], einto(ch, D1, n_), einto(ch, D0, n_)])),
    ]


def node_traverse(kind, name, trusted=None):
    def post(c):
        D0, _ = vis0(c)
        D1, V1 = c.g.vis.dom, c.g.vis.val
        d = Dfs(c, kind)
        pre = pre_order(c.p.order)
        ch = c.h0.arr("Node.children")
        return common(c, D0, D1, V1, c.out0, c.out, lambda n: If(n == c.p.self, 1, 0), lambda n: reach(ch, c.p.self, n)) + [
            ("visits the node", D1[c.p.self]),
            ("yields in depth-first order, siblings in %s order" % kind, c.out == d.O(pre, D0, c.out0, c.p.self)),
            ("visits as the depth-first search does", D1 == d.V(D0, c.p.self)),
            ("leaves the final counts in the dictionary given", And(c.o.visited.dom == D1, c.o.visited.val == V1) if c.given("visited") else z3.BoolVal(True)),
            (FIRST, children_first(ch, pre, D0, c.out0, c.out)),
        ]

    names = [n for n in ["only appends to what was yielded", "yields newly visited nodes only", "yields each node once", "yields every newly visited node", "forgets no visit",
                         "visits the children of every node it visits", "visits reachable nodes only", "counts how often each node was reached", "visits the node",
                         "yields in depth-first order, siblings in %s order" % kind, "visits as the depth-first search does", "leaves the final counts in the dictionary given", FIRST]]

    def pick(i):
        return lambda c: post(c)[i][1]

    def entry(c):
        D0, _ = vis0(c)
        d = Dfs(c, kind)
        ch = c.h0.arr("Node.children")
        return d.unfold(pre_order(c.p.order), D0, c.out0, c.p.self) + d.unfold_list() + reach_axioms(ch) + [einto_store(ch, D0, c.p.self)] + acyclic_def(ch, c.p.self)

    def inv(c):
        D0, _ = vis0(c)
        vis = c.v.visited
        D, Vv = vis.dom, vis.val
        me, ch, out, out0 = c.p.self, c.h0.arr("Node.children"), c.out, c.out0
        pre = pre_order(c.p.order)
        d = Dfs(c, kind)
        D1 = z3.Store(D0, me, z3.BoolVal(True))
        s = c.seq
        O1 = If(pre, SN.app(out0, me), out0)
        L0 = SN.len(out0)
        new = lambda n: And(D[n], Not(D0[n]))
        return [
            Not(D0[me]), D[me],
            And(L0 <= SN.len(out), FA([i_], Imp(And(0 <= i_, i_ < L0), SN.at(out, i_) == SN.at(out0, i_)), patterns=[SN.at(out, i_), SN.at(out0, i_)])),
            FA([i_], Imp(And(L0 <= i_, i_ < SN.len(out)), And(new(SN.at(out, i_)), Or(pre, SN.at(out, i_) != me))), patterns=[SN.at(out, i_)]),
            distinct(out, L0),
            FA([n_], Imp(new(n_), Or(SN.mem(out, n_), And(Not(pre), n_ == me))), patterns=[D[n_]]),
            FA([n_], Imp(D0[n_], D[n_]), patterns=[D0[n_]]),
            FA([n_, c_], Imp(And(new(n_), n_ != me, SN.mem(ch[n_], c_)), D[c_]), patterns=[MP(D[n_], SN.mem(ch[n_], c_))]),
            FA([j_], Imp(And(0 <= j_, j_ < c.i), D[SN.at(s, j_)]), patterns=[SN.at(s, j_)]),
            FA([n_], Imp(new(n_), reach(ch, me, n_)), patterns=[D[n_]]),
            FA([n_], If(D[n_], Vv[n_], 0) == cnt0(c, n_) + If(n_ == me, 1, 0) + einto(ch, D, n_) - einto(ch, D0, n_) - (SN.occ(ch[me], SN.len(ch[me]), n_) - SN.occ(s, c.i, n_)), patterns=[D[n_], einto(ch, D, n_)]),
            out == d.LO(pre, D1, O1, s, c.i),
            D == d.LV(D1, s, c.i),
            children_first(ch, pre, D0, out0, out),
        ]
    inames = ["the node is new", "the node is visited", "prefix kept", "yields are new", "yields are distinct", "visited nodes are yielded", "visits kept", "closed except here", "first children visited",
              "reachable", "counts", "depth-first output", "depth-first visits", FIRST]

    def piki(i):
        return lambda c: inv(c)[i]

    def yield_as(ex, v):
        # with attrs, what is yielded for a node is the tuple of its frame's values
        me = ex.entry_vals["self"].x
        if ex.entry_vals["attrs"].t == NONE:
            if v.t != N:
                raise Unsupported("yields %s, expected nodes" % v.t)
            return v.x
        ex.prove("yields the attribute values of the node", v.x == fvals(ex.heap["Node.frame"][0][me], ex.entry_vals["attrs"].x))
        return me
    views = {}
    for vn, vv in (("visited given", {}), ("visited new", {"visited": None})):
        views[vn + ", nodes"] = dict(vv, attrs=None)
        views[vn + ", attributes"] = dict(vv, __yields="attrs")
    sp = Spec(NODEPY, "Node." + name, {"self": N, "order": STR, "attrs": VAL, "visited": VIS}, ("gen", N), views=views,
              requires=[("attributes are given in this view", lambda c: c.p.attrs != z3.Const("val_None", usort("Val")) if c.given("attrs") else True)],
              raises={"ValueError": lambda c: And(c.p.order != strlit("pre"), c.p.order != strlit("post"))},
              ensures=[(nm, pick(i)) for i, nm in enumerate(names)], modifies=["param:visited"], entry=entry, occ=True,
              ghost={"vis": (VIS, lambda ex: ex.frame.vars["visited"])}, yield_as=yield_as,
              loops={0: [(nm, piki(i)) for i, nm in enumerate(inames)]}, trusted=trusted)
    sp.reads = READS[kind]
    return sp


fvals = fn("frame_values", FRAME_S, usort("Val"), usort("Val"))


def graph_traverse(kind, name, trusted=None):
    def root_occ(c, n, i=None, s=None):
        r = c.h0.roots(c.p.self) if s is None else s
        return SN.occ(r, SN.len(r) if i is None else i, n)

    def reached(c):
        ch, r = c.h0.arr("Node.children"), c.h0.roots(c.p.self)
        return lambda n: greach(ch, r, n)

    def post(c):
        D0, _ = vis0(c)
        D1, V1 = c.g.vis.dom, c.g.vis.val
        d = Dfs(c, kind)
        pre = pre_order(c.p.order)
        r = c.h0.roots(c.p.self)
        rs = d.sorted(r)
        return common(c, D0, D1, V1, c.out0, c.out, lambda n: root_occ(c, n), reached(c)) + [
            ("visits the roots", FA([n_], Imp(SN.mem(r, n_), D1[n_]), patterns=[SN.mem(r, n_)])),
            ("yields in depth-first order, siblings in %s order" % kind, c.out == d.LO(pre, D0, c.out0, rs, SN.len(rs))),
            ("visits as the depth-first search does", D1 == d.LV(D0, rs, SN.len(rs))),
            ("leaves the final counts in the dictionary given", And(c.o.visited.dom == D1, c.o.visited.val == V1) if c.given("visited") else z3.BoolVal(True)),
            ("yields exactly the reachable nodes, when nothing was visited before",
             Imp(And(D0 == EMPTY, SN.len(c.out0) == 0), FA([n_], SN.mem(c.out, n_) == reached(c)(n_), patterns=[SN.mem(c.out, n_)]))),
            ("yields every reachable node, when nothing was visited before",
             Imp(And(D0 == EMPTY, SN.len(c.out0) == 0), FA([n_], Imp(reached(c)(n_), SN.mem(c.out, n_)), patterns=[reached(c)(n_)]))),
            (FIRST, children_first(c.h0.arr("Node.children"), pre, D0, c.out0, c.out)),
        ]
    names = ["only appends to what was yielded", "yields newly visited nodes only", "yields each node once", "yields every newly visited node", "forgets no visit",
             "visits the children of every node it visits", "visits reachable nodes only", "counts how often each node was reached", "visits the roots",
             "yields in depth-first order, siblings in %s order" % kind, "visits as the depth-first search does", "leaves the final counts in the dictionary given",
             "yields exactly the reachable nodes, when nothing was visited before", "yields every reachable node, when nothing was visited before", FIRST]

    def pick(i):
        return lambda c: post(c)[i][1]

    def entry(c):
        ch, r = c.h0.arr("Node.children"), c.h0.roots(c.p.self)
        return Dfs(c, kind).unfold_list() + greach_axioms(ch, r) + acyclic_def(ch)

    def hint(c):
        # the visited set, when it started empty, contains the roots and is closed: it contains everything reachable
        ch, r = c.h0.arr("Node.children"), c.h0.roots(c.p.self)
        D1 = c.g.vis.dom
        return greach_induction(ch, r, lambda n: D1[n])

    def inv(c):
        D0, _ = vis0(c)
        vis = c.v.visited
        D, Vv = vis.dom, vis.val
        ch, out, out0, s = c.h0.arr("Node.children"), c.out, c.out0, c.seq
        d = Dfs(c, kind)
        pre = pre_order(c.p.order)
        cl = common(c, D0, D, Vv, out0, out, lambda n: SN.occ(s, c.i, n), reached(c))
        return [x[1] for x in cl] + [
            FA([j_], Imp(And(0 <= j_, j_ < c.i), D[SN.at(s, j_)]), patterns=[SN.at(s, j_)]),
            out == d.LO(pre, D0, out0, s, c.i),
            D == d.LV(D0, s, c.i),
            Or(c.i == 0, pre, c.p.order == strlit("post")),
            children_first(ch, pre, D0, out0, out)]

    def piki(i):
        return lambda c: inv(c)[i]
    inames = names[:8] + ["first roots visited", "depth-first output", "depth-first visits", "the order is known", FIRST]
    views = {}
    for vn, vv in (("visited given", {}), ("visited new", {"visited": None})):
        views[vn + ", nodes"] = dict(vv, attrs=None)
        views[vn + ", attributes"] = dict(vv, __yields="attrs")
    sp = Spec(GRAPHPY, "Graph." + name, {"self": G, "order": STR, "attrs": VAL, "visited": VIS}, ("gen", N), views=views,
              requires=[("attributes are given in this view", lambda c: c.p.attrs != z3.Const("val_None", usort("Val")) if c.given("attrs") else True)],
              raises={"ValueError": lambda c: And(c.p.order != strlit("pre"), c.p.order != strlit("post"), SN.len(c.h0.roots(c.p.self)) > 0)}, ensures=[(nm, pick(i)) for i, nm in enumerate(names)], modifies=["param:visited"], entry=entry, occ=True,
              ghost={"vis": (VIS, lambda ex: ex.frame.vars["visited"])}, trusted=trusted,
              loops={0: [(nm, piki(i)) for i, nm in enumerate(inames)]})
    sp.axiom_hints = hint
    sp.reads = READS[kind]
    return sp


greach = fn("greach", ChArr, O_S, NODE_S, B)


def greach_axioms(ch, r):
    """greach(ch, roots, n): some root reaches n."""
    a, b, d = z3.Consts("a b d", NODE_S)
    return [
        FA([a], Imp(SN.mem(r, a), greach(ch, r, a)), patterns=[SN.mem(r, a)]),
        FA([a, b], Imp(And(greach(ch, r, a), SN.mem(ch[a], b)), greach(ch, r, b)), patterns=[MP(greach(ch, r, a), SN.mem(ch[a], b))]),
        FA([a, b], Imp(And(greach(ch, r, a), reach(ch, a, b)), greach(ch, r, b)), patterns=[MP(greach(ch, r, a), reach(ch, a, b))]),
    ]


def greach_induction(ch, r, S):
    b, d = z3.Consts("b d", NODE_S)
    return Imp(And(FA([b], Imp(SN.mem(r, b), S(b)), patterns=[SN.mem(r, b)]), FA([b, d], Imp(And(S(b), SN.mem(ch[b], d)), S(d)), patterns=[SN.mem(ch[b], d)])),
               FA([b], Imp(greach(ch, r, b), S(b)), patterns=[greach(ch, r, b)]))
