"""Classes of hatchet as seen by the contracts, and the parts several properties share."""
import z3
from pyvc.core import *
from pyvc.spec import Spec, Registry

N, F, G = Ref("Node"), Ref("Frame"), Ref("Graph")
NS_ = Seq(N)
SN = SeqTheory(N)
NODE_S = sort_of(N)
FRAME_S = sort_of(F)
FA, And, Or, Not, Imp, If = z3.ForAll, z3.And, z3.Or, z3.Not, z3.Implies, z3.If
I, B = z3.IntSort(), z3.BoolSort()
MP = z3.MultiPattern
n_, m_, c_ = z3.Consts("n m c", NODE_S)
i_, j_, k_ = z3.Ints("i j k")
NodeSet = z3.ArraySort(NODE_S, B)
ChArr = z3.ArraySort(NODE_S, sort_of(NS_))

reach = fn("reach", ChArr, NODE_S, NODE_S, B)

NODEPY, GRAPHPY, FRAMEPY = "hatchet/node.py", "hatchet/graph.py", "hatchet/frame.py"


def base(frames="abstract"):
    reg = Registry()
    reg.cls("Node", NODEPY, frame=("frame", F), depth=("_depth", INT), nid=("_hatchet_nid", INT), parents=("parents", NS_), children=("children", NS_))
    reg.cls("Graph", GRAPHPY, roots=("roots", NS_), node_ordering=("node_ordering", BOOL))
    if frames == "abstract":
        reg.cls("Frame", FRAMEPY)
        reg.add(Spec(FRAMEPY, "Frame.__eq__", {"self": F, "other": F}, BOOL, pure=lambda c: fkey(c.p.self) == fkey(c.p.other), trusted="proved by the check of P03"))
        reg.add(Spec(FRAMEPY, "Frame.__lt__", {"self": F, "other": F}, BOOL, pure=lambda c: fkey(c.p.self) < fkey(c.p.other), trusted="proved by the check of P03"))
        reg.add(Spec(FRAMEPY, "Frame.__gt__", {"self": F, "other": F}, BOOL, pure=lambda c: fkey(c.p.self) > fkey(c.p.other), trusted="proved by the check of P03"))
        reg.assumptions.append("frames order by a total preorder key (fkey) in which equal keys mean equal attributes; attributes are not mutated after construction (P03 proves the comparison methods against the attribute tuples; the values of an attribute are assumed mutually comparable)")
    reg.assumptions += [
        "the Python data model as implemented by pyvc/exec.py: containers in different fields or elements are distinct objects, attribute access is not overridden",
        "partial correctness: termination and recursion depth are not proved",
        "id() is injective on the objects alive during the call",
        "integers are mathematical (Python integers are)",
    ]
    reg.trusted += ["pyvc (verification-condition generator: pyvc/*.py)", "SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "CPython's ast module"]
    return reg


def reach_axioms(ch):
    """reach(ch, a, b): b can be reached from a along child edges (reflexive, transitive)."""
    a, b, d = z3.Consts("a b d", NODE_S)
    return [
        FA([a], reach(ch, a, a), patterns=[reach(ch, a, a)]),
        FA([a, b, d], Imp(And(reach(ch, a, b), SN.mem(ch[b], d)), reach(ch, a, d)), patterns=[MP(reach(ch, a, b), SN.mem(ch[b], d))]),
        FA([a, b, d], Imp(And(SN.mem(ch[a], b), reach(ch, b, d)), reach(ch, a, d)), patterns=[MP(SN.mem(ch[a], b), reach(ch, b, d))]),
    ]


def reach_induction(ch, a, S):
    """Instance of the induction principle of reach: a set that contains a and is closed under children contains all that a reaches."""
    b, d = z3.Consts("b d", NODE_S)
    closed = FA([b, d], Imp(And(S(b), SN.mem(ch[b], d)), S(d)), patterns=[MP(S(b), SN.mem(ch[b], d))]) if False else FA([b, d], Imp(And(S(b), SN.mem(ch[b], d)), S(d)), patterns=[SN.mem(ch[b], d)])
    return Imp(And(S(a), closed), FA([b], Imp(reach(ch, a, b), S(b)), patterns=[reach(ch, a, b)]))


def distinct(s, lo=0):
    th = SN
    return FA([i_, j_], Imp(And(lo <= i_, i_ < j_, j_ < th.len(s)), th.at(s, i_) != th.at(s, j_)), patterns=[MP(th.at(s, i_), th.at(s, j_))])


def frame_field(c, key, except_=None):
    """The heap component key is unchanged, except at the nodes for which except_ holds."""
    o = z3.Const("o", c.h.arr(key).sort().domain())
    new, old = c.h.arr(key), c.h0.arr(key)
    e = (lambda x: z3.BoolVal(False)) if except_ is None else except_
    return FA([o], Or(e(o), new[o] == old[o]), patterns=[new[o]])


def closed(c):
    """Objects that live objects refer to are alive (Python keeps them)."""
    n, m = n_, m_
    h = c.h0
    o, f = z3.Const("o", usort("Graph")), FRAME_S
    al = lambda x: h.alive("Node", x)
    out = [
        FA([n, m], Imp(And(al(n), SN.mem(h.arr("Node.children")[n], m)), And(al(m), m != null("Node"))), patterns=[SN.mem(h.arr("Node.children")[n], m)]),
        FA([n, m], Imp(And(al(n), SN.mem(h.arr("Node.parents")[n], m)), And(al(m), m != null("Node"))), patterns=[SN.mem(h.arr("Node.parents")[n], m)]),
        FA([o, m], Imp(And(h.alive("Graph", o), SN.mem(h.arr("Graph.roots")[o], m)), And(al(m), m != null("Node"))), patterns=[SN.mem(h.arr("Graph.roots")[o], m)]),
        FA([n], Imp(al(n), And(h.alive("Frame", h.arr("Node.frame")[n]), h.arr("Node.frame")[n] != null("Frame"))), patterns=[h.arr("Node.frame")[n]]),
    ]
    return out


CLOSED = "objects that live objects refer to are alive"
