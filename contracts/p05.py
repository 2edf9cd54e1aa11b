"""P05: a copied graph is isomorphic to the original and shares nothing with it."""
from .p02 import *

MAP = Map(N, N)


def chs(c, h=None):
    h = h or c.h0
    return h.arr("Node.children"), h.roots(c.p.self)


def alive0(c, x):
    return c.h0.alive("Node", x)


def mapped(M, nid0, new, old):
    """The list new is the list old, each node replaced by its counterpart."""
    return And(SN.len(new) == SN.len(old), FA([k_], Imp(And(0 <= k_, k_ < SN.len(old)), SN.at(new, k_) == M.get(nid0[SN.at(old, k_)])), patterns=[SN.at(new, k_), SN.at(old, k_)]))


def prefix(M, nid0, new, old, i):
    return And(SN.len(new) == i, FA([k_], Imp(And(0 <= k_, k_ < i), SN.at(new, k_) == M.get(nid0[SN.at(old, k_)])), patterns=[SN.at(new, k_), SN.at(old, k_)]))


FIELDS = ("Node.frame", "Node.depth", "Node.nid", "Node.parents", "Node.children")


def originals(c):
    return And(*[FA([n_], Imp(alive0(c, n_), c.h.arr(k)[n_] == c.h0.arr(k)[n_]), patterns=[c.h.arr(k)[n_]]) for k in FIELDS])


q_, r_ = z3.Ints("q r")


def mp(c):
    m = c.v.old_to_new
    if isinstance(m, tuple):
        m = MapC(z3.K(I, z3.BoolVal(False)), z3.K(I, null("Node")), z3.K(I, null("Node")))
    return m


def keys_ok(c, M):
    """The keys are reachable nodes, under their numbers; their counterparts are new nodes with new frames that compare equal."""
    ch, r = chs(c)
    nid0, fr0, fr = c.h0.arr("Node.nid"), c.h0.arr("Node.frame"), c.h.arr("Node.frame")
    x, m = M.key(q_), M.get(q_)
    return FA([q_], Imp(M.has(q_), And(greach(ch, r, x), nid0[x] == q_, Not(alive0(c, m)), c.h.alive("Node", m), m != null("Node"), fkey(fr[m]) == fkey(fr0[x]), Not(c.h0.alive("Frame", fr[m])))), patterns=[M.has(q_)])


def tagged(c, M):
    nid = c.h.arr("Node.nid")
    return FA([q_], Imp(M.has(q_), nid[M.get(q_)] == q_), patterns=[M.has(q_)])


def image(c, M):
    nid = c.h.arr("Node.nid")
    return lambda x: And(M.has(nid[x]), M.get(nid[x]) == x)


def graph_copy(trusted=None):
    def cover(c, M):
        ch, r = chs(c)
        nid0 = c.h0.arr("Node.nid")
        return FA([n_], Imp(greach(ch, r, n_), And(M.has(nid0[n_]), M.key(nid0[n_]) == n_)), patterns=[greach(ch, r, n_)])

    def l0(what):
        def f(c):
            M, s, nid0 = mp(c), c.seq, c.h0.arr("Node.nid")
            if what == "the first nodes have counterparts":
                return FA([j_], Imp(And(0 <= j_, j_ < c.i), And(M.has(nid0[SN.at(s, j_)]), M.key(nid0[SN.at(s, j_)]) == SN.at(s, j_))), patterns=[SN.at(s, j_)])
            if what == "only the first nodes":
                return FA([q_], Imp(M.has(q_), And(SN.mem(s, M.key(q_)), SN.idx(s, M.key(q_)) < c.i)), patterns=[M.has(q_)])
            if what == "counterparts":
                return keys_ok(c, M)
            if what == "counterparts keep the number":
                return tagged(c, M)
            if what == "counterparts have no edges":
                return FA([q_], Imp(M.has(q_), And(c.h.arr("Node.children")[M.get(q_)] == SN.empty, c.h.arr("Node.parents")[M.get(q_)] == SN.empty)), patterns=[M.has(q_)])
            return originals(c)
        return what, f

    def edges(c, M, q, done):
        nid0 = c.h0.arr("Node.nid")
        out = []
        for k in ("Node.parents", "Node.children"):
            new, old = c.h.arr(k)[M.get(q)], c.h0.arr(k)[M.key(q)]
            out.append(If(done, mapped(M, nid0, new, old), new == SN.empty))
        return And(*out)

    def l1(what):
        def f(c):
            M, ks = mp(c), c.seq
            if what == "the first nodes have their edges":
                return FA([q_], Imp(M.has(q_), edges(c, M, q_, SN.idx(ks, M.key(q_)) < c.i)), patterns=[M.has(q_)])
            return originals(c)
        return what, f

    def l23(key):
        def f(c):
            M, s = mp(c), c.seq
            now, then = c.h.arr(key), c.hl.arr(key)
            m = c.v.new
            return And(prefix(M, c.h0.arr("Node.nid"), now[m], s, c.i), FA([n_], Or(n_ == m, now[n_] == then[n_]), patterns=[now[n_]]))
        return [("the first edges are there", f)]

    def M1(c):
        return c.g.old_to_new

    def reaches(c):
        return lambda x: greach(c.h.arr("Node.children"), c.h.roots(c.res), x)

    def hint(c):
        ch, r = chs(c)
        M, nid0 = M1(c), c.h0.arr("Node.nid")
        return greach_induction(ch, r, lambda n: And(greach(ch, r, n), reaches(c)(M.get(nid0[n]))))

    def new_ok(c):
        M = M1(c)
        R = reaches(c)
        return And(FA([q_], Imp(M.has(q_), R(M.get(q_))), patterns=[M.has(q_)]),
                   FA([n_], Imp(R(n_), z3.Exists([q_], And(M.has(q_), M.get(q_) == n_))), patterns=[R(n_)]))
    V_ = lambda f: (lambda c: f(c, M1(c)))
    nid0 = lambda c: c.h0.arr("Node.nid")
    sp = Spec(GRAPHPY, "Graph.copy", {"self": G, "old_to_new": MAP}, G, views={"mapping given": {}, "mapping not given": {"old_to_new": None}},
              modifies=list(FIELDS) + ["Graph.roots", "Graph.node_ordering", "alloc:Node", "alloc:Graph", "alloc:Frame", "param:old_to_new"],
              entry=lambda c: closed(c) + greach_axioms(*chs(c)) + [greach_induction(*chs(c), lambda n: c.h0.alive("Node", n))],
              requires=[("the mapping given is empty", lambda c: c.p.old_to_new.dom == z3.K(I, z3.BoolVal(False)) if c.given("old_to_new") else True),
                        ("no reachable node has a root as a child", lambda c: well_rooted(*chs(c))),
                        ("reachable nodes have different numbers", lambda c: numbered_apart(*chs(c), nid0(c))),
                        ("parents of reachable nodes are reachable", lambda c: FA([n_, m_], Imp(And(greach(*chs(c), n_), SN.mem(c.h0.arr("Node.parents")[n_], m_)), greach(*chs(c), m_)), patterns=[SN.mem(c.h0.arr("Node.parents")[n_], m_)]))],
              ghost={"old_to_new": (MAP, lambda ex: ex.frame.vars["old_to_new"])},
              ensures=[
                  ("the copy is a new graph", lambda c: And(Not(c.h0.alive("Graph", c.res)), c.h.alive("Graph", c.res))),
                  ("the node order setting is kept", lambda c: c.h.node_ordering(c.res) == c.h0.node_ordering(c.p.self)),
                  ("every node of the graph has a counterpart", V_(lambda c, M: cover(c, M))),
                  ("nodes of the graph only; counterparts are new nodes with new, equal frames", V_(lambda c, M: keys_ok(c, M))),
                  ("no two nodes share a counterpart", V_(lambda c, M: FA([q_, r_], Imp(And(M.has(q_), M.has(r_), M.get(q_) == M.get(r_)), q_ == r_), patterns=[MP(M.has(q_), M.has(r_))]))),
                  ("children and parents correspond, in order", V_(lambda c, M: FA([q_], Imp(M.has(q_), edges(c, M, q_, z3.BoolVal(True))), patterns=[M.has(q_)]))),
                  ("roots correspond, in order", V_(lambda c, M: mapped(M, nid0(c), c.h.roots(c.res), c.h0.roots(c.p.self)))),
                  ("the nodes of the copy are exactly the counterparts", new_ok),
                  ("the nodes of the original are unchanged", originals),
                  ("other graphs are unchanged", lambda c: FA([g_], Imp(c.h0.alive("Graph", g_), And(c.h.arr("Graph.roots")[g_] == c.h0.arr("Graph.roots")[g_], c.h.arr("Graph.node_ordering")[g_] == c.h0.arr("Graph.node_ordering")[g_])), patterns=[c.h.arr("Graph.roots")[g_], c.h.arr("Graph.node_ordering")[g_]])),
                  ("the mapping given is the one filled", lambda c: And(c.o.old_to_new.dom == M1(c).dom, c.o.old_to_new.val == M1(c).val, c.o.old_to_new.obj == M1(c).obj) if c.given("old_to_new") else True),
              ],
              loops={0: [l0(w) for w in ("the first nodes have counterparts", "only the first nodes", "counterparts", "counterparts keep the number", "counterparts have no edges", "originals")],
                     1: [l1(w) for w in ("the first nodes have their edges", "originals")],
                     2: l23("Node.parents"), 3: l23("Node.children")}, trusted=trusted)
    sp.axiom_hints = hint

    def at_enum(c):
        ch, r = c.h.arr("Node.children"), c.h.roots(c.call.self)
        M = mp(c)
        im = image(c, M)
        return And(*greach_axioms(ch, r), greach_induction(ch, r, im))
    sp.call_hints = {"Graph.enumerate_traverse": at_enum}
    return sp


g_ = z3.Const("g", usort("Graph"))


def frame_copy():
    return Spec(FRAMEPY, "Frame.copy", {"self": F}, F, modifies=["alloc:Frame"], trusted="proved by the check of P03",
                ensures=[("is a new frame", lambda c: And(Not(c.h0.alive("Frame", c.res)), c.h.alive("Frame", c.res), c.res != c.p.self, c.res != null("Frame"))), ("compares equal", lambda c: fkey(c.res) == fkey(c.p.self))])


def build():
    reg = base()
    travs(reg)
    reg.add(enum_traverse_spec(trusted="proved by the check of P02"))
    reg.add(frame_copy())
    nc = Spec(NODEPY, "Node.copy", {"self": N}, N, modifies=list(FIELDS) + ["alloc:Node", "alloc:Frame"], entry=closed,
              ensures=[("is a new node", lambda c: And(Not(alive0(c, c.res)), c.h.alive("Node", c.res))),
                       ("its frame is new and compares equal", lambda c: And(fkey(c.h.frame(c.res)) == fkey(c.h0.frame(c.p.self)), Not(c.h0.alive("Frame", c.h.frame(c.res))))),
                       ("it has no edges", lambda c: And(c.h.parents(c.res) == SN.empty, c.h.children(c.res) == SN.empty)),
                       ("other nodes are unchanged", originals)])
    nc.inline = True
    reg.add(nc)
    reg.add(graph_copy())
    reg.assumptions.append(CLOSED)
    return reg
