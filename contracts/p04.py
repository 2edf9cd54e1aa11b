"""P04: a node's call paths are exactly the root-to-node paths."""
from .model import *

SP = SeqTheory(SNOC)
PathS = sort_of(SNOC)
chain = fn("chain", ChArr, PathS, NODE_S, B)
p_, q_ = z3.Consts("p q", PathS)


def chain_def(par):
    """chain(par, p, n): p is a tuple of nodes that starts at a node without parents, follows parent edges backwards, and ends at n."""
    init, last = Path.init(p_), Path.last(p_)
    return [FA([p_, n_], chain(par, p_, n_) == And(Path.is_snoc(p_), last == n_, If(SN.len(par[n_]) == 0, Path.is_nil(init), And(Path.is_snoc(init), SN.mem(par[n_], Path.last(init)), chain(par, init, Path.last(init))))),
               patterns=[chain(par, p_, n_)])]


def nodup(par):
    return FA([n_, i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < SN.len(par[n_])), SN.at(par[n_], i_) != SN.at(par[n_], j_)), patterns=[MP(SN.at(par[n_], i_), SN.at(par[n_], j_))])


def paths_spec(trusted=None):
    par = lambda c: c.h0.arr("Node.parents")

    def inv(c, what):
        r, me, s = c.v.paths, c.p.self, c.seq
        if what == "sound":
            return FA([i_], Imp(And(0 <= i_, i_ < SP.len(r)), chain(par(c), SP.at(r, i_), me)), patterns=[SP.at(r, i_)])
        if what == "complete":
            # every chain whose last edge comes from one of the first parents is there
            return FA([p_, j_], Imp(And(0 <= j_, j_ < c.i, chain(par(c), p_, me), Path.last(Path.init(p_)) == SN.at(s, j_)), SP.mem(r, p_)), patterns=[MP(chain(par(c), p_, me), SN.at(s, j_))])
        if what == "from the first parents":
            return Imp(nodup(par(c)), FA([i_], Imp(And(0 <= i_, i_ < SP.len(r)), And(Path.is_snoc(Path.init(SP.at(r, i_))), first(c, Path.last(Path.init(SP.at(r, i_)))) < c.i)), patterns=[SP.at(r, i_)]))
        return Imp(nodup(par(c)), dist(r))

    def first(c, m):
        return SN.idx(par(c)[c.p.self], m)

    def dist(r):
        return FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < SP.len(r)), SP.at(r, i_) != SP.at(r, j_)), patterns=[MP(SP.at(r, i_), SP.at(r, j_))])
    return Spec(NODEPY, "Node.paths", {"self": N}, Seq(SNOC), entry=lambda c: chain_def(par(c)),
                ensures=[
                    ("each tuple is a chain of parent edges from a root to the node", lambda c: FA([i_], Imp(And(0 <= i_, i_ < SP.len(c.res)), chain(par(c), SP.at(c.res, i_), c.p.self)), patterns=[SP.at(c.res, i_)])),
                    ("every chain from a root to the node is there", lambda c: FA([p_], Imp(chain(par(c), p_, c.p.self), SP.mem(c.res, p_)), patterns=[chain(par(c), p_, c.p.self)])),
                    ("no chain is there twice, when parent lists name each parent once", lambda c: Imp(nodup(par(c)), dist(c.res))),
                ],
                loops={0: [(w, lambda c, w=w: inv(c, w)) for w in ("sound", "complete", "from the first parents", "distinct")]}, trusted=trusted)


def build():
    reg = base()
    reg.add(paths_spec())
    par = lambda c: c.h0.arr("Node.parents")
    # (with no parents or with parents that all have paths there is at least one path: the graph is acyclic)
    reg.add(Spec(NODEPY, "Node.path", {"self": N, "attrs": VAL}, SNOC, views={"": {"attrs": None}}, entry=lambda c: chain_def(par(c)),
                 requires=[("some chain leads from a root to the node", lambda c: z3.Exists([p_], chain(par(c), p_, c.p.self))),
                           ("parent lists name each parent once", lambda c: nodup(par(c)))],
                 raises={"MultiplePathError": lambda c: (z3.Exists([p_, q_], And(p_ != q_, chain(par(c), p_, c.p.self), chain(par(c), q_, c.p.self))))},
                 ensures=[("returns a chain to the node", lambda c: chain(par(c), c.res, c.p.self)),
                          ("it is the only one", lambda c: FA([p_], Imp(chain(par(c), p_, c.p.self), p_ == c.res), patterns=[chain(par(c), p_, c.p.self)]))]))
    return reg
