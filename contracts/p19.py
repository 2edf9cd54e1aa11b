"""P19: the compiled kernels compute what their array contracts say, within their arrays.

The functions are those of the .pyx files, read by Cython's parser on every run (pyvc/pyx2py.py): C integers are
machine integers (an overflow is an obligation), every index into a memory view is an obligation."""
from .model import *
from pyvc import cops

GFM, CRM = "hatchet/cython_modules/graphframe_modules.pyx", "hatchet/cython_modules/reader_modules.pyx"
ROW = Tup(INT, INT)
ROWS, INTS, DBLS, BITS = Seq(ROW), Seq(INT), Seq(cops.DOUBLE), Seq(BOOL)
RS, IS, DS, BS = (SeqTheory(t.a[0]) for t in (ROWS, INTS, DBLS, BITS))
a_, b_ = z3.Ints("a b")
SMALL = 2 ** 52  # entries: sums of two indices stay exact as doubles


def key(s, k):
    return unpack(ROW, RS.at(s, k)).x[0].x


def pos(s, k):
    return unpack(ROW, RS.at(s, k)).x[1].x


def sorted_keys(s, n):
    return FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < n), key(s, i_) <= key(s, j_)), patterns=[MP(RS.at(s, i_), RS.at(s, j_))])


def occurs(s, n, k):
    return z3.Exists([j_], And(0 <= j_, j_ < n, key(s, j_) == k))


def search():
    def absent(c, lo, hi):
        return FA([j_], Imp(And(0 <= j_, j_ < c.p.arr_len, Or(j_ < lo, j_ > hi)), key(c.p.array, j_) != c.p.key), patterns=[RS.at(c.p.array, j_)])
    sp = Spec(GFM, "binary_search", {"array": ROWS, "arr_len": INT, "key": INT}, INT,
                requires=[("the length given is one of the array", lambda c: And(0 <= c.p.arr_len, c.p.arr_len <= RS.len(c.p.array), c.p.arr_len <= SMALL)),
                          ("the array is sorted", lambda c: sorted_keys(c.p.array, c.p.arr_len))],
                ensures=[("the result is where the key is, or -1 if it is nowhere", lambda c: If(c.res == -1, FA([j_], Imp(And(0 <= j_, j_ < c.p.arr_len), key(c.p.array, j_) != c.p.key), patterns=[RS.at(c.p.array, j_)]),
                                                                                                 And(0 <= c.res, c.res < c.p.arr_len, key(c.p.array, c.res) == c.p.key)))],
                loops={0: [("the interval lies in the array", lambda c: And(0 <= c.v.L, c.v.L <= c.p.arr_len, -1 <= c.v.R, c.v.R < c.p.arr_len)), ("the key is not outside the interval", lambda c: absent(c, c.v.L, c.v.R))]})
    sp.variants = {"loop0": lambda c: c.v.R - c.v.L + 1}
    return sp


def isin():
    n = lambda c: RS.len(c.p.arr1)
    wanted = lambda c, k: Not(occurs(c.p.arr2, c.p.arr2_len, key(c.p.arr1, k)))

    def marked(c, r, upto):
        return FA([i_], Imp(And(0 <= i_, i_ < upto), BS.at(r, pos(c.p.arr1, i_)) == wanted(c, i_)), patterns=[RS.at(c.p.arr1, i_)])
    return Spec(GFM, "fast_not_isin", {"arr1": ROWS, "arr2": ROWS, "arr1_len": INT, "arr2_len": INT}, BITS,
                requires=[("the lengths given are those of the arrays", lambda c: And(c.p.arr1_len == n(c), 0 <= c.p.arr2_len, c.p.arr2_len <= RS.len(c.p.arr2), n(c) <= SMALL, c.p.arr2_len <= SMALL)),
                          ("the second array is sorted", lambda c: sorted_keys(c.p.arr2, c.p.arr2_len)),
                          ("the positions are those of the rows, each once", lambda c: And(FA([i_], Imp(And(0 <= i_, i_ < n(c)), And(0 <= pos(c.p.arr1, i_), pos(c.p.arr1, i_) < n(c))), patterns=[RS.at(c.p.arr1, i_)]),
                                                                                             FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < n(c)), pos(c.p.arr1, i_) != pos(c.p.arr1, j_)), patterns=[MP(RS.at(c.p.arr1, i_), RS.at(c.p.arr1, j_))])))],
                ensures=[("there is one mark per row", lambda c: BS.len(c.res) == n(c)),
                         ("a row is marked exactly when its key does not occur in the second array", lambda c: marked(c, c.res, n(c)))],
                loops={0: [("there is one mark per row", lambda c: BS.len(c.v.result) == n(c)), ("the first rows are marked", lambda c: marked(c, c.v.result, c.i))]})


def insert():
    def written(c, k, upto):
        return z3.Exists([j_], And(0 <= j_, j_ < upto, IS.at(c.p.snio_indices, j_) == k))

    def state(c, now, upto):
        old = c.p.self_missing_node
        return And(IS.len(now) == IS.len(old),
                   FA([j_], Imp(And(0 <= j_, j_ < upto), IS.at(now, IS.at(c.p.snio_indices, j_)) == 1), patterns=[IS.at(c.p.snio_indices, j_)]),
                   FA([k_], Imp(And(0 <= k_, k_ < IS.len(old), Not(written(c, k_, upto))), IS.at(now, k_) == IS.at(old, k_)), patterns=[IS.at(now, k_)]))
    return Spec(GFM, "insert_one_for_self_nodes", {"snio_len": INT, "self_missing_node": INTS, "snio_indices": INTS}, NONE, modifies=["param:self_missing_node"],
                requires=[("the length given is one of the list of positions", lambda c: c.p.snio_len <= IS.len(c.p.snio_indices)),
                          ("the positions lie in the array", lambda c: FA([j_], Imp(And(0 <= j_, j_ < c.p.snio_len), And(0 <= IS.at(c.p.snio_indices, j_), IS.at(c.p.snio_indices, j_) < IS.len(c.p.self_missing_node))), patterns=[IS.at(c.p.snio_indices, j_)]))],
                ensures=[("exactly the listed positions are set to 1", lambda c: state(c, c.o.self_missing_node, c.p.snio_len))],
                loops={0: [("the first positions are set", lambda c: state(c, c.o.self_missing_node, c.i))]})


ppos, cpos = (z3.Function("%s_position" % w, I, I, I, I) for w in ("parent", "child"))  # (first number, stride, k)


def subtract():
    P = lambda c, k: ppos(c.p.parent_nid, c.p.stride, k)
    C = lambda c, k: cpos(c.p.nid, c.p.stride, k)
    num = lambda c: c.p.num_stmt_nodes
    fits = lambda x: And(x > -2 ** 62, x < 2 ** 62)
    sub = cops.dfun("-")

    def define(c):
        return [FA([k_], P(c, k_) == c.p.parent_nid - 1 + k_ * c.p.stride, patterns=[P(c, k_)]), FA([k_], C(c, k_) == c.p.nid - 1 + k_ * c.p.stride, patterns=[C(c, k_)])]

    def state(c, now, upto):
        old = c.p.metrics
        hit = z3.Exists([j_], And(0 <= j_, j_ < upto, P(c, j_) == k_))
        return And(DS.len(now) == DS.len(old),
                   FA([j_], Imp(And(0 <= j_, j_ < upto), DS.at(now, P(c, j_)) == sub(DS.at(old, P(c, j_)), DS.at(old, C(c, j_)))), patterns=[P(c, j_)]),
                   FA([k_], Imp(And(0 <= k_, k_ < DS.len(old), Not(hit)), DS.at(now, k_) == DS.at(old, k_)), patterns=[DS.at(now, k_)]))
    return Spec(CRM, "subtract_exclusive_metric_vals", {"nid": INT, "parent_nid": INT, "metrics": DBLS, "num_stmt_nodes": INT, "stride": INT}, NONE, modifies=["param:metrics"], entry=define,
                requires=[("the positions lie in the array", lambda c: FA([j_], Imp(And(0 <= j_, j_ < num(c)), And(0 <= P(c, j_), P(c, j_) < DS.len(c.p.metrics), 0 <= C(c, j_), C(c, j_) < DS.len(c.p.metrics))), patterns=[P(c, j_), C(c, j_)])),
                          ("no value is read after it was written", lambda c: FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < num(c)), And(P(c, i_) != C(c, j_), P(c, i_) != P(c, j_))), patterns=[MP(P(c, i_), P(c, j_)), MP(P(c, i_), C(c, j_))])),
                          ("the numbers fit 63 bits, also one stride further", lambda c: And(fits(DS.len(c.p.metrics)), fits(c.p.nid), fits(c.p.parent_nid), fits(c.p.stride), FA([k_], Imp(And(0 <= k_, k_ <= num(c)), And(fits(P(c, k_)), fits(C(c, k_)))), patterns=[P(c, k_), C(c, k_)])))],
                ensures=[("exactly the parent's values are changed, each by the child's", lambda c: state(c, c.o.metrics, num(c)))],
                loops={0: [("the numbers are those of the step", lambda c: And(c.v.ref_pnid - 1 == P(c, c.i), c.v.ref_nid - 1 == C(c, c.i))), ("the first values are changed", lambda c: state(c, c.o.metrics, c.i))]})


def build():
    reg = base(False)
    reg.externs["numpy.zeros"] = cops.zeros
    for s in (search(), isin(), insert(), subtract()):
        reg.add(s)
    return reg
