"""P08: squashing connects a kept node to the kept nodes it reaches through dropped nodes only."""
from .p01 import *
from pyvc.core import T

GFPY = "hatchet/graphframe.py"
OLDN, NEWN = T("id", "Node", "old"), T("id", "Node", "new")
NEWS = Set(NEWN)
CONN = T("map", OLDN, NEWS, "default")
KEPT = Map(OLDN, N)
OLDS = Set(Id("Node"))
NULL = null("Node")
x_, y_, u_, v_ = z3.Consts("x y u v", NODE_S)
CHS, DOM = z3.ArraySort(NODE_S, SN.S), z3.ArraySort(NODE_S, z3.BoolSort())
via_ = fn("reaches_through_dropped", CHS, DOM, NODE_S, NODE_S, z3.BoolSort())  # (children, kept, x, y): y is kept, and x is y or a chain of dropped nodes leads from x to y
edge_ = fn("edge_through_dropped", CHS, DOM, NODE_S, NODE_S, z3.BoolSort())    # (children, kept, x, y): some child of x reaches y through dropped nodes
orig_ = fn("original_of", z3.ArraySort(NODE_S, NODE_S), NODE_S, NODE_S)
rank = fn("rank", NODE_S, z3.IntSort())


class Sq:
    """The state of rewire: the original graph (which does not change) and the graph being built."""

    def __init__(self, c):
        self.c = c
        self.ch0, self.old, self.open, self.rooted = c.gp.ch.val, c.gp.old, c.gp.open, c.gp.rooted
        self.K = c.cap.old_to_new

    def via(self, x, y):
        return via_(self.ch0, self.K.dom, x, y)

    def edge(self, x, y):
        return edge_(self.ch0, self.K.dom, x, y)

    def new(self, x):
        return self.K.get(x)

    def orig(self, n):
        return orig_(self.K.val, n)

    def isnew(self, n):
        return And(self.K.has(self.orig(n)), self.new(self.orig(n)) == n, n != NULL)

    def definitions(self):
        w, e = (fn(k, CHS, DOM, NODE_S, NODE_S, NODE_S)(self.ch0, self.K.dom, x_, y_) for k in ("through_child", "edge_child"))
        c0, K, via, edge = self.ch0, self.K, self.via, self.edge
        return [FA([x_, y_], Imp(And(via(x_, y_), K.has(x_)), x_ == y_), patterns=[via(x_, y_)]),
                FA([x_], Imp(K.has(x_), via(x_, x_)), patterns=[K.has(x_)]),
                FA([x_, y_], Imp(via(x_, y_), K.has(y_)), patterns=[via(x_, y_)]),
                FA([x_, y_], Imp(And(via(x_, y_), Not(K.has(x_))), And(SN.mem(c0[x_], w), via(w, y_))), patterns=[via(x_, y_)]),
                FA([x_, u_, y_], Imp(And(Not(K.has(x_)), SN.mem(c0[x_], u_), via(u_, y_)), via(x_, y_)), patterns=[MP(SN.mem(c0[x_], u_), via(u_, y_))]),
                FA([x_, y_], Imp(edge(x_, y_), And(SN.mem(c0[x_], e), via(e, y_))), patterns=[edge(x_, y_)]),
                FA([x_, u_, y_], Imp(And(SN.mem(c0[x_], u_), via(u_, y_)), edge(x_, y_)), patterns=[MP(SN.mem(c0[x_], u_), via(u_, y_))])]

    def world(self, h):
        c0, K, nid = self.ch0, self.K, h.arr("Node.nid")
        return [("children of old nodes are old nodes, and there are no cycles", FA([x_, y_], Imp(And(self.old.has(x_), SN.mem(c0[x_], y_)), And(self.old.has(y_), y_ != NULL, rank(y_) > rank(x_))), patterns=[SN.mem(c0[x_], y_)])),
                ("old nodes have their children", FA([x_], Imp(self.old.has(x_), h.arr("Node.children")[x_] == c0[x_]), patterns=[h.arr("Node.children")[x_], c0[x_]])),
                ("kept nodes are old nodes with a new node of their own", FA([x_], Imp(K.has(x_), And(self.old.has(x_), self.new(x_) != NULL, self.orig(self.new(x_)) == x_, nid[self.new(x_)] == nid[x_])), patterns=[K.has(x_), self.new(x_)])),
                ("new nodes are not old nodes", FA([u_], Imp(self.isnew(u_), Not(self.old.has(u_))), patterns=[self.old.has(u_), self.orig(u_)])),
                ("old nodes have different numbers", FA([x_, y_], Imp(And(self.old.has(x_), self.old.has(y_), nid[x_] == nid[y_]), x_ == y_), patterns=[MP(nid[x_], nid[y_])]))]

    def state(self, vis, con, roots, h, op):
        """What holds whenever rewire is entered or left; op: the nodes whose children are being visited."""
        c0, K, via, edge, new, orig, isnew = self.ch0, self.K, self.via, self.edge, self.new, self.orig, self.isnew
        ch, par = h.arr("Node.children"), h.arr("Node.parents")
        done = lambda x: And(vis.has(x), Not(op(x)))
        has = lambda x, n: z3.Select(con.get(x), n)
        once = []
        for a in (ch, par):
            p, q = SN.at(a[u_], i_), SN.at(a[u_], j_)
            once.append(FA([u_, i_, j_], Imp(And(isnew(u_), 0 <= i_, i_ < j_, j_ < SN.len(a[u_])), p != q), patterns=[MP(p, q)]))
        p, q = SN.at(roots, i_), SN.at(roots, j_)
        once.append(FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < SN.len(roots)), p != q), patterns=[MP(p, q)]))
        return [("the children of a node that is done are done", FA([x_, y_], Imp(And(self.old.has(x_), done(x_), SN.mem(c0[x_], y_)), done(y_)), patterns=[MP(vis.has(x_), SN.mem(c0[x_], y_))])),
                ("a kept node stands for its new node", FA([x_, u_], Imp(K.has(x_), And(con.has(x_), has(x_, u_) == (u_ == new(x_)))), patterns=[MP(K.has(x_), has(x_, u_))])),
                ("a kept node has connections", FA([x_], Imp(K.has(x_), con.has(x_)), patterns=[K.has(x_)])),
                ("a dropped node that is done stands for the new nodes of what it reaches", FA([x_, u_], Imp(And(self.old.has(x_), done(x_), Not(K.has(x_))), And(con.has(x_), has(x_, u_) == And(isnew(u_), via(x_, orig(u_))))), patterns=[has(x_, u_), MP(vis.has(x_), via(x_, orig(u_)))])),
                ("a dropped node that is done has connections", FA([x_], Imp(And(self.old.has(x_), done(x_), Not(K.has(x_))), con.has(x_)), patterns=[vis.has(x_)])),
                ("other nodes stand for nothing yet", FA([x_, u_], Imp(And(self.old.has(x_), con.has(x_), Not(K.has(x_)), Not(done(x_))), Not(has(x_, u_))), patterns=[has(x_, u_)])),
                ("every new edge comes from a chain of dropped nodes", FA([u_, v_], Imp(And(isnew(u_), SN.mem(ch[u_], v_)), And(isnew(v_), edge(orig(u_), orig(v_)))), patterns=[SN.mem(ch[u_], v_)])),
                ("every chain from a node that is done has its edge", FA([x_, y_], Imp(And(K.has(x_), done(x_), edge(x_, y_)), SN.mem(ch[new(x_)], new(y_))), patterns=[edge(x_, y_)])),
                ("every new root is reached from an old root", FA([u_], Imp(SN.mem(roots, u_), And(isnew(u_), self.rooted.has(orig(u_)))), patterns=[SN.mem(roots, u_)])),
                ("child and parent lists of new nodes mirror each other", And(FA([u_, v_], Imp(And(isnew(u_), SN.mem(ch[u_], v_)), SN.mem(par[v_], u_)), patterns=[SN.mem(ch[u_], v_)]),
                                                                              FA([u_, v_], Imp(And(isnew(v_), SN.mem(par[v_], u_)), And(isnew(u_), SN.mem(ch[u_], v_))), patterns=[SN.mem(par[v_], u_)]))),
                ("nothing is listed twice", And(*once))]

    def grown(self, vis0, roots0, h0, vis1, roots1, h1):
        c0, c1, p0, p1 = h0.arr("Node.children"), h1.arr("Node.children"), h0.arr("Node.parents"), h1.arr("Node.parents")
        return [("what was visited stays visited", FA([x_], Imp(vis0.has(x_), vis1.has(x_)), patterns=[vis0.has(x_), vis1.has(x_)])),
                ("edges are only added", FA([u_, v_], Imp(SN.mem(c0[u_], v_), SN.mem(c1[u_], v_)), patterns=[SN.mem(c0[u_], v_), SN.mem(c1[u_], v_)])),
                ("roots are only added", FA([u_], Imp(SN.mem(roots0, u_), SN.mem(roots1, u_)), patterns=[SN.mem(roots0, u_), SN.mem(roots1, u_)])),
                ("only new nodes change", FA([x_], Imp(Not(self.isnew(x_)), And(c1[x_] == c0[x_], p1[x_] == p0[x_])), patterns=[c1[x_], p1[x_]]))]

    def connected(self, y, parent, roots, h):
        return If(parent == NULL, SN.mem(roots, self.new(y)), SN.mem(h.arr("Node.children")[parent], self.new(y)))


STATE = ["the children of a node that is done are done", "a kept node stands for its new node", "a kept node has connections", "a dropped node that is done stands for the new nodes of what it reaches",
         "a dropped node that is done has connections", "other nodes stand for nothing yet", "every new edge comes from a chain of dropped nodes", "every chain from a node that is done has its edge",
         "every new root is reached from an old root", "child and parent lists of new nodes mirror each other", "nothing is listed twice"]
WORLD = ["children of old nodes are old nodes, and there are no cycles", "old nodes have their children", "kept nodes are old nodes with a new node of their own", "new nodes are not old nodes", "old nodes have different numbers"]
GROWN = ["what was visited stays visited", "edges are only added", "roots are only added", "only new nodes change"]


def memo(f):
    def g(c):
        d = c.__dict__.setdefault("_memo", {})
        if f not in d:
            d[f] = dict(f(c))
        return d[f]
    return g


def clauses(names, f):
    return [(n, lambda c, n=n: f(c)[n]) for n in names]


def seq(v):
    return SN.empty if isinstance(v, tuple) else v


def rewire_spec():
    node, parent = (lambda c: c.p.node), (lambda c: c.p.new_parent)
    opened = lambda c: (lambda x: c.gp.open.has(x))
    opened1 = lambda c: (lambda x: Or(c.gp.open.has(x), x == node(c)))

    @memo
    def pre(c):
        s = Sq(c)
        return s.world(c.h0) + s.state(c.p.visited, c.cap.connections, c.cap.new_roots, c.h0, opened(c))

    @memo
    def post(c):
        s = Sq(c)
        return s.state(c.o.visited, c.capo.connections, c.capo.new_roots, c.h, opened(c)) + s.grown(c.p.visited, c.cap.new_roots, c.h0, c.o.visited, c.capo.new_roots, c.h)

    def inv(op):
        @memo
        def f(c):
            s = Sq(c)
            return s.state(c.v.visited, c.v.connections, seq(c.v.new_roots), c.h, op(c)) + s.grown(c.p.visited, c.cap.new_roots, c.h0, c.v.visited, seq(c.v.new_roots), c.h) + [(WORLD[1], dict(s.world(c.h))[WORLD[1]])]
        return f
    all_names = STATE + GROWN

    def parent_ok(c):
        s, p = Sq(c), parent(c)
        return If(p == NULL, FA([y_], Imp(s.via(node(c), y_), s.rooted.has(y_)), patterns=[s.via(node(c), y_)]),
                  And(s.isnew(p), FA([y_], Imp(s.via(node(c), y_), s.edge(s.orig(p), y_)), patterns=[s.via(node(c), y_)])))

    def first_connected(c):
        s = Sq(c)
        n = SN.at(c.seq, j_)
        p = parent(c)
        return FA([j_], Imp(And(0 <= j_, j_ < c.i), If(p == NULL, SN.mem(seq(c.v.new_roots), n), SN.mem(c.h.arr("Node.children")[p], n))), patterns=[n])

    def first_children(what):
        def f(c):
            s, x = Sq(c), SN.at(c.seq, j_)
            p = If(s.K.has(node(c)), s.new(node(c)), parent(c))
            t = c.v.transitive
            tr = lambda n: t.has(n)
            if what == "done":
                return FA([j_], Imp(And(0 <= j_, j_ < c.i), And(c.v.visited.has(x), Not(c.gp.open.has(x)), x != node(c))), patterns=[x])
            if what == "connected":
                return FA([j_, y_], Imp(And(0 <= j_, j_ < c.i, s.via(x, y_)), s.connected(y_, p, seq(c.v.new_roots), c.h)), patterns=[MP(x, s.via(x, y_))])
            if what == "collected":
                return FA([j_, y_], Imp(And(0 <= j_, j_ < c.i, s.via(x, y_)), tr(s.new(y_))), patterns=[MP(x, s.via(x, y_))])
            if z3.is_K(z3.simplify(t.dom)):
                return z3.BoolVal(True) if z3.is_false(z3.simplify(t.dom).arg(0)) else z3.BoolVal(False)  # the empty set: nothing is collected
            return FA([u_], Imp(tr(u_), And(s.isnew(u_), z3.Exists([j_], And(0 <= j_, j_ < c.i, s.via(x, s.orig(u_)))))), patterns=[tr(u_)])
        return f

    def result(c):
        s = Sq(c)
        return FA([u_], c.res.has(u_) == And(s.isnew(u_), s.via(node(c), s.orig(u_))), patterns=[c.res.has(u_), s.via(node(c), s.orig(u_))])

    def reached(c):
        s = Sq(c)
        return FA([y_], Imp(s.via(node(c), y_), And(s.connected(y_, parent(c), c.capo.new_roots, c.h), c.res.has(s.new(y_)))), patterns=[s.via(node(c), y_)])

    def ghosts(c):
        o = c.gp.open
        return {"ch": V(Map(Id("Node"), NS_), c.gp.ch), "old": V(OLDS, c.gp.old), "rooted": V(OLDS, c.gp.rooted), "open": V(OLDS, MapC(z3.Store(o.dom, c.p.node, z3.BoolVal(True))))}
    sp = Spec(GFPY, "GraphFrame.squash.rewire", {"node": N, "new_parent": N, "visited": Set(OLDN)}, NEWS, nullable=["new_parent"], captures={"connections": CONN, "old_to_new": KEPT, "new_roots": NS_},
              modifies=["Node.children", "Node.parents", "cap:connections", "cap:new_roots", "param:visited"], ghost_params={"ch": Map(Id("Node"), NS_), "old": OLDS, "open": OLDS, "rooted": OLDS},
              ghost_args={"GraphFrame.squash.rewire": ghosts},
              entry=lambda c: Sq(c).definitions(),
              requires=clauses(WORLD + STATE, pre) + [("the node is an old node", lambda c: c.gp.old.has(node(c))),
                                                      ("the nodes being visited are visited and come before the node", lambda c: FA([x_], Imp(c.gp.open.has(x_), And(c.p.visited.has(x_), rank(x_) < rank(node(c)))), patterns=[c.gp.open.has(x_)])),
                                                      ("what the node reaches belongs under the parent", parent_ok)],
              ensures=clauses(all_names, post) + [("the node is visited", lambda c: c.o.visited.has(node(c))), ("the result has the new nodes of what the node reaches", result), ("they are connected to the parent, or are roots", reached)],
              loops={0: clauses(all_names + [WORLD[1]], inv(opened)) + [("the first ones are connected", first_connected)],
                     1: clauses(all_names + [WORLD[1]], inv(opened1)) + [("the first children are done", first_children("done")), ("what they reach is connected", first_children("connected")), ("what they reach is collected", first_children("collected")),
                                                                        ("nothing else is collected", first_children("only")), ("the node is visited", lambda c: c.v.visited.has(node(c))),
                                                                        ("a kept node is connected", lambda c: Imp(Sq(c).K.has(node(c)), Sq(c).connected(node(c), parent(c), seq(c.v.new_roots), c.h)))]})
    sp.families = {"old": lambda c, x: c.gp.old.has(x), "new": lambda c, x: Sq(c).isnew(x)}
    sp.types = {"transitive": NEWS}
    sp.name_calls = True
    return sp


def build():
    reg = base()
    reg.add(rewire_spec())
    return reg
