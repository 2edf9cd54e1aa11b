from .trav import *


def build():
    reg = base()
    reg.add(Spec(FRAMEPY, "Frame.values", {"self": F, "names": VAL}, VAL, pure=lambda c: fvals(c.p.self, c.p.names), trusted="names the tuple of attribute values that a traversal with attrs yields (checked by the bounded runs)"))
    for kind, name in (("frame", "traverse"), ("node number", "node_order_traverse")):
        reg.add(node_traverse(kind, name))
        reg.add(graph_traverse(kind, name))
    reg.add(len_spec())
    reg.add(is_tree_spec())
    return reg


def graph_out(c, pre=True):
    d = Dfs(c, "frame")
    rs = d.sorted(c.h0.roots(c.p.self))
    return d.LO(z3.BoolVal(pre), EMPTY, SN.empty, rs, SN.len(rs))


def graph_vis(c):
    d = Dfs(c, "frame")
    rs = d.sorted(c.h0.roots(c.p.self))
    return d.LV(EMPTY, rs, SN.len(rs))


def is_tree_spec(trusted=None):
    return Spec(GRAPHPY, "Graph.is_tree", {"self": G}, BOOL, ensures=[
        ("one root, and every node reached once", lambda c: c.res == is_tree_def(c))], entry=tree_entry, occ=True, trusted=trusted)


def is_tree_def(c, g=None):
    ch, r = c.h0.arr("Node.children"), c.h0.roots(c.p.self if g is None else g)
    d = Dfs(c, "frame")
    D = d.LV(EMPTY, d.sorted(r), SN.len(d.sorted(r)))
    return And(SN.len(r) <= 1, FA([n_], Imp(greach(ch, r, n_), SN.occ(r, SN.len(r), n_) + einto(ch, D, n_) == 1), patterns=[greach(ch, r, n_)]))


def tree_entry(c):
    ch, r = c.h0.arr("Node.children"), c.h0.roots(c.p.self)
    return greach_axioms(ch, r) + [FA([n_], einto(ch, EMPTY, n_) == 0, patterns=[einto(ch, EMPTY, n_)])]


def len_spec(trusted=None):
    def listed(c):
        s = graph_out(c)
        ch, r = c.h0.arr("Node.children"), c.h0.roots(c.p.self)
        return And(distinct(s), FA([n_], SN.mem(s, n_) == greach(ch, r, n_), patterns=[SN.mem(s, n_)]), FA([n_], SN.mem(s, n_) == greach(ch, r, n_), patterns=[greach(ch, r, n_)]))
    return Spec(GRAPHPY, "Graph.__len__", {"self": G}, INT, ensures=[
        ("is the number of nodes the traversal yields", lambda c: c.res == SN.len(graph_out(c))), ("which are the reachable nodes, each once", listed)], trusted=trusted)
