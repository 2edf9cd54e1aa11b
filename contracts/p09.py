"""P09: a filtered graphframe holds exactly the rows that satisfy the predicate, and the original is unchanged.

A table is its content (all rows, numbered by position) and the positions it still has. Assumed: what the pandas
operations used mean in these terms, and that a started process runs its function once on copies of its arguments and that
what the processes put into a queue can be taken once each, in any order."""
from .query import *
from .table import GFPY
from pyvc.exec import PyRaise, NONEV, LambdaVal

DF, GF, QUEUE, PROC = Ref("DataFrame"), Ref("GraphFrame"), Ref("Queue"), Ref("Process")
CONTENT, DFINDEX, FILTER, METRICS, META = (Sort(x) for x in ("Content", "DfIndex", "RowFilter", "Metrics", "Metadata"))
LAB, NAMES = Seq(INT), Seq(STR)
DS, LS = SeqTheory(DF), SeqTheory(LAB)
CS = SeqTheory(STR)
LAB_S, CONT_S, NAMES_S = sort_of(LAB), usort("Content"), sort_of(NAMES)
rowpred = fn("row_satisfies", usort("RowFilter"), CONT_S, I, B)
nodeof = fn("node_of_row", CONT_S, I, NODE_S)
count = fn("number_of_rows", CONT_S, I)
names_of, index_of = fn("level_names", usort("DfIndex"), NAMES_S), fn("index_with_levels", NAMES_S, usort("DfIndex"))
RANGE = z3.Const("range_index", usort("DfIndex"))
part = fn("part_of_row", CONT_S, LAB_S, I, I, I)  # (content, positions, number of parts, position)
perm = fn("arrival", sort_of(QUEUE), I, I, I)     # (queue, number of items, k): the k-th item to arrive
in_mode = fn("read_in_mode", usort("Meaning"), sort_of(STR), usort("Meaning"))
source, source_flag = fn("squashed_from", sort_of(GF), sort_of(GF)), fn("squashed_with", sort_of(GF), B)
x_, u_, v_ = z3.Ints("x u v")
l_ = z3.Const("l", LAB_S)
ns_ = z3.Const("names", NAMES_S)
o_ = z3.Const("o", sort_of(DF))
MASK = T("mask")


def increasing(s):
    return FA([u_, v_], Imp(And(0 <= u_, u_ < v_, v_ < SI.len(s)), SI.at(s, u_) < SI.at(s, v_)), patterns=[MP(SI.at(s, u_), SI.at(s, v_))])


def kept(new, old, holds):
    """new lists, in order, the positions of old for which holds."""
    return And(FA([x_], SI.mem(new, x_) == And(SI.mem(old, x_), holds(x_)), patterns=[SI.mem(new, x_)]), FA([x_], Imp(And(SI.mem(old, x_), holds(x_)), SI.mem(new, x_)), patterns=[SI.mem(old, x_)]),
               increasing(new))


def first_listed(s):
    """(an instance of the theory of sequences)"""
    return Imp(SI.len(s) > 0, SI.mem(s, SI.at(s, 0)))


def theory():
    return [FA([ns_], names_of(index_of(ns_)) == ns_, patterns=[index_of(ns_)])]


def unsupported(ex, what):
    raise Unsupported("%s at line %d" % (what, ex.line))


FIELDS = ("content", "labels", "index")


def get(ex, df):
    return [ex.read_field("DataFrame." + k, df).x for k in FIELDS]


def make(ex, content, labels, index):
    o = ex.alloc("DataFrame")
    for k, v, t in zip(FIELDS, (content, labels, index), (CONTENT, LAB, DFINDEX)):
        ex.write_field("DataFrame." + k, o.x, V(t, v))
    return o


def select(ex, df, mask):
    """The rows of a table for which a mask made from it holds."""
    c, l, ix = get(ex, df)
    mc, ml, holds = mask.x
    ex.prove("the mask was made for the rows of the table", And(mc == c, ml == l))
    ex.prove("the rows of the table are in order", increasing(l))
    r = const("kept", LAB)
    ex.seq_types.add(INT)
    ex.fact(kept(r, l, holds))
    ex.fact(first_listed(r))
    return make(ex, c, r, ix)


def inplace(ex, kw):
    """Whether an operation changes its table; otherwise its result is a new one."""
    if set(kw) - {"inplace"}:
        unsupported(ex, "operation with other arguments")
    v = z3.simplify(kw["inplace"].x) if kw else z3.BoolVal(False)
    if not (z3.is_true(v) or z3.is_false(v)):
        unsupported(ex, "operation that may be in place")
    return z3.is_true(v)


def reindexed(ex, recv, kw, index):
    c, l, ix = get(ex, recv.x)
    if not inplace(ex, kw):
        return make(ex, c, l, index)
    ex.write_field("DataFrame.index", recv.x, V(DFINDEX, index))
    return NONEV


def pandas(reg):
    reg.cls("DataFrame", GFPY, "DataFrame", content=("content", CONTENT), labels=("labels", LAB), index=("index", DFINDEX))
    reg.cls("GraphFrame", GFPY, graph=("graph", G), dataframe=("dataframe", DF), exc=("exc_metrics", METRICS), inc=("inc_metrics", METRICS), default=("default_metric", STR), metadata=("metadata", META), engine=("query_engine", E))
    reg.cls("Queue", "multiprocess", "Queue", items=("items", Seq(LAB)), taken=("taken", INT))
    reg.cls("Process", "multiprocess", "Process")
    m, x = reg.methods, reg.externs

    def prop(f):
        f.is_property = True
        return f
    m[("DfIndex", "names")] = prop(lambda ex, recv, args, kw, e: V(NAMES, names_of(recv.x)))
    m[("DataFrame", "shape")] = prop(lambda ex, recv, args, kw, e: V(Tup(INT, INT), [V(INT, SI.len(get(ex, recv.x)[1])), V(INT, const("columns", INT))]))
    m[("DataFrame", "__len__")] = lambda ex, recv, args, kw, e: V(INT, SI.len(get(ex, recv.x)[1]))

    def empty(ex, recv, args, kw, e):
        c, l, ix = get(ex, recv.x)
        ex.prove("the table has columns", ix == RANGE)
        return V(BOOL, SI.len(l) == 0)
    m[("DataFrame", "empty")] = prop(empty)
    m[("DataFrame", "copy")] = lambda ex, recv, args, kw, e: make(ex, *get(ex, recv.x))

    def reset(ex, recv, args, kw, e):
        ex.prove("the table has its index", get(ex, recv.x)[2] != RANGE)
        return reindexed(ex, recv, kw, RANGE)
    m[("DataFrame", "reset_index")] = reset

    def set_index(ex, recv, args, kw, e):
        ex.prove("the levels are columns of the table", get(ex, recv.x)[2] == RANGE)
        return reindexed(ex, recv, kw, index_of(ex.coerce(args[0], NAMES).x))
    m[("DataFrame", "set_index")] = set_index

    def apply(ex, recv, args, kw, e):
        if len(args) != 1 or args[0].t != FILTER or set(kw) != {"axis"} or ex.concrete_int(kw["axis"]) != 1:
            unsupported(ex, "apply of other arguments")
        c, l, ix = get(ex, recv.x)
        ex.prove("the function is given the row labels as columns", ix == RANGE)
        return V(MASK, (c, l, lambda p, f=args[0].x: rowpred(f, c, p)))
    m[("DataFrame", "apply")] = apply

    def isin(ex, recv, args, kw, e):
        c, l = recv.x
        s = ex.coerce(args[0], NS_).x
        nid = ex.hget("Node.nid")[0]
        ex.prove("nodes of rows are told apart by their numbers", FA([n_, x_], Imp(And(SN.mem(s, n_), SI.mem(l, x_), nid[n_] == nid[nodeof(c, x_)]), n_ == nodeof(c, x_)), patterns=[MP(SN.mem(s, n_), SI.mem(l, x_))]))
        return V(MASK, (c, l, lambda p: SN.mem(s, nodeof(c, p))))
    m[("nodecolumn", "isin")] = isin

    def item(ex, recv, args, kw, e):
        k = args[0]
        if k.t == STR:
            ex.prove("the column taken is that of the nodes", And(k.x == strlit("node"), get(ex, recv.x)[2] == RANGE))
            c, l, ix = get(ex, recv.x)
            return V(T("nodecolumn"), (c, l))
        return select(ex, recv.x, k) if k.t == MASK else unsupported(ex, "subscript of a table")
    m[("DataFrame", "__getitem__")] = item
    m[("DataFrame", "loc")] = lambda *a: None

    def loc(ex, recv, args, kw, e):
        b, k = recv.x, ex.read(args[0])
        if not (isinstance(b, Builtin) and b.name == "loc" and b.recv is not None and b.recv.t == DF):
            unsupported(ex, "subscript")
        if k.t == MASK:
            return select(ex, b.recv.x, k)
        if k.t != LAB:
            unsupported(ex, "row labels of loc")
        c, l, ix = get(ex, b.recv.x)
        ex.prove("rows are looked up by position", ix == RANGE)
        ex.prove("the rows exist", FA([x_], Imp(SI.mem(k.x, x_), SI.mem(l, x_)), patterns=[SI.mem(k.x, x_)]))
        ex.fact(first_listed(k.x))
        return make(ex, c, k.x, ix)
    m[("py", "__getitem__")] = loc

    # splitting, and joining what comes back
    split = Spec("numpy", "array_split", {"df": DF, "k": INT}, Seq(DF), modifies=["DataFrame.content", "DataFrame.labels", "DataFrame.index", "alloc:DataFrame"], trusted="pandas/numpy", ensures=[("", lambda c: split_post(c))])

    def split_post(c):
        c0, l0, ix0 = (getattr(c.h0, k)(c.p.df) for k in FIELDS)
        s, k = c.res, c.p.k
        d = DS.at(s, i_)
        return And(DS.len(s) == k, FA([i_], Imp(And(0 <= i_, i_ < k), And(c.h.alive("DataFrame", d), Not(c.h0.alive("DataFrame", d)), d != null("DataFrame"), c.h.content(d) == c0, c.h.index(d) == ix0, kept(c.h.labels(d), l0, lambda p: part(c0, l0, k, p) == i_))), patterns=[d]),
                   FA([x_], Imp(SI.mem(l0, x_), And(0 <= part(c0, l0, k, x_), part(c0, l0, k, x_) < k)), patterns=[part(c0, l0, k, x_)]),
                   FA([x_], Imp(SI.mem(l0, x_), SI.mem(c.h.labels(DS.at(s, part(c0, l0, k, x_))), x_)), patterns=[SI.mem(l0, x_)]), tables_kept(c))

    def array_split(ex, args, kw, e):
        if len(args) != 2 or kw or args[0].t != DF:
            unsupported(ex, "array_split of other arguments")
        ex.prove("there is at least one part", args[1].x > 0)
        ex.prove("the rows of the table are in order", increasing(get(ex, args[0].x)[1]))
        ex.seq_types |= {DF, INT}
        return ex.apply_contract({"spec": split, "view": "", "bound": {"df": args[0], "k": args[1]}, "frame": None, "line": ex.line})
    x["numpy.array_split"] = array_split

    def queue(ex, args, kw, e):
        o = ex.alloc("Queue")
        ex.write_field("Queue.items", o.x, V(Seq(LAB), LS.empty))
        ex.write_field("Queue.taken", o.x, V(INT, z3.IntVal(0)))
        ex.seq_types |= {LAB, INT}
        return o
    x["multiprocess.Queue"] = queue

    def process(ex, args, kw, e):
        if args or set(kw) != {"target", "args"}:
            unsupported(ex, "process of other arguments")
        o = ex.alloc("Process")
        ex.jobs = dict(getattr(ex, "jobs", {}), **{str(o.x): (kw["target"], ex.read(kw["args"]).x)})
        return o
    x["multiprocess.Process"] = process

    def start(ex, recv, args, kw, e):
        j = getattr(ex, "jobs", {}).get(str(recv.x))
        if j is None:
            unsupported(ex, "start of a process made elsewhere")
        ex.call_value(j[0], list(j[1]), {}, e, ex.frame)
        return NONEV
    m[("Process", "start")] = start
    m[("Process", "join")] = lambda ex, recv, args, kw, e: NONEV

    def put(ex, recv, args, kw, e):
        items = ex.read_field("Queue.items", recv.x).x
        ex.write_field("Queue.items", recv.x, V(Seq(LAB), LS.app(items, get(ex, args[0].x)[1])))
        return NONEV
    m[("Queue", "put")] = put

    def take(ex, recv, args, kw, e):
        items, k = ex.read_field("Queue.items", recv.x).x, ex.read_field("Queue.taken", recv.x).x
        n = LS.len(items)
        ex.prove("there is something to wait for", k < n)
        p = lambda i: perm(recv.x, n, i)
        ex.fact(And(0 <= p(k), p(k) < n))
        ex.write_field("Queue.taken", recv.x, V(INT, k + 1))
        return make(ex, const("content_of_copies", CONTENT), LS.at(items, p(k)), RANGE)
    m[("Queue", "get")] = take

    def concat(ex, args, kw, e):
        s = ex.read(args[0])
        if len(args) != 1 or kw or s.t != Seq(DF):
            unsupported(ex, "concat of other arguments")
        labels = ex.hget("DataFrame.labels")[0]
        ex.prove("there is something to concatenate", DS.len(s.x) > 0)
        r = const("concatenated", LAB)
        from pyvc.core import fresh_name
        src, off, pos = (fn(fresh_name(w), *ks) for w, ks in (("src", (I, I)), ("off", (I, I)), ("pos", (I, I, I))))
        lab = lambda j: labels[DS.at(s.x, j)]
        ex.seq_types |= {DF, INT}
        ex.fact(FA([i_], Imp(And(0 <= i_, i_ < SI.len(r)), And(0 <= src(i_), src(i_) < DS.len(s.x), 0 <= off(i_), off(i_) < SI.len(lab(src(i_))), SI.at(r, i_) == SI.at(lab(src(i_)), off(i_)), pos(src(i_), off(i_)) == i_)), patterns=[SI.at(r, i_)]))
        ex.fact(FA([i_, j_], Imp(And(0 <= i_, i_ < DS.len(s.x), 0 <= j_, j_ < SI.len(lab(i_))), And(0 <= pos(i_, j_), pos(i_, j_) < SI.len(r), SI.at(r, pos(i_, j_)) == SI.at(lab(i_), j_))), patterns=[SI.at(lab(i_), j_)]))
        ex.fact(FA([i_, x_], Imp(And(0 <= i_, i_ < DS.len(s.x), SI.mem(lab(i_), x_)), SI.mem(r, x_)), patterns=[SI.mem(lab(i_), x_)]))
        ex.fact(FA([x_], Imp(SI.mem(r, x_), And(0 <= src(SI.idx(r, x_)), src(SI.idx(r, x_)) < DS.len(s.x), SI.mem(lab(src(SI.idx(r, x_))), x_))), patterns=[SI.mem(r, x_)]))
        return V(T("concat"), r)
    x["pandas.concat"] = concat

    def sort_values(ex, recv, args, kw, e):
        b = recv.x
        if args or kw or not (isinstance(b, Builtin) and b.name == "index" and b.recv is not None and b.recv.t == T("concat")):
            unsupported(ex, "sort_values")
        c, r = b.recv.x, const("sorted_labels", LAB)
        for p in (SI.mem(r, x_), SI.mem(c, x_)):
            ex.fact(FA([x_], SI.mem(r, x_) == SI.mem(c, x_), patterns=[p]))
        differ = FA([i_, j_], Imp(And(0 <= i_, i_ < j_, j_ < SI.len(c)), SI.at(c, i_) != SI.at(c, j_)), patterns=[MP(SI.at(c, i_), SI.at(c, j_))])
        ex.fact(Imp(differ, increasing(r)))
        return V(LAB, r)
    m[("py", "sort_values")] = sort_values
    x["sys.setrecursionlimit"] = lambda ex, args, kw, e: NONEV
    x["new:QueryEngine"] = lambda ex, args, kw, e: ex.alloc("Engine")
    x["coerce:" + mangle(METRICS)] = lambda ex, v: V(METRICS, z3.Const("no_metrics", usort("Metrics"))) if v.t == T("emptyseq") else None
    x["coerce:" + mangle(META)] = lambda ex, v: V(META, z3.Const("no_metadata", usort("Metadata"))) if v.t == T("emptymap") else None
    reg.assumptions.append("pandas, for filters: a table has a content, whose rows are numbered, and the numbers of the rows it shows; copy, reset_index and set_index change neither, apply(axis=1) gives the function's answer (True or False) for every row, a mask keeps the rows for which it is true, "
                           "loc with numbers gives those rows in that order, array_split cuts a table into consecutive parts, concat joins the rows of tables, sort_values sorts; isin compares nodes by number")
    reg.assumptions.append("processes: a started process runs its function once, on copies of its arguments for which the row function answers as for the originals; what the processes put into a queue can be taken from it once each, in any order")


def tables_kept(c):
    k = lambda h: [h.arr("DataFrame." + f)[o_] for f in FIELDS]
    return And(FA([o_], Imp(c.h0.alive("DataFrame", o_), And(*[a == b for a, b in zip(k(c.h), k(c.h0))], c.h.alive("DataFrame", o_))), patterns=[*k(c.h), c.h.alive("DataFrame", o_)]))


def queries(reg):
    def is_query(ex, a, name, c):
        return z3.BoolVal(False) if a.t == FILTER else is_a(ex, a, name)
    query_classes(reg)
    x = reg.externs
    x["builtin:isinstance_term"] = is_query
    x["builtin:callable"] = lambda ex, args, kw, e: V(BOOL, z3.BoolVal(args[0].t == FILTER)) if args[0].t in (FILTER, Q) else None

    def built(kinds):
        def h(ex, args, kw, e):
            if len(args) != 2 or kw:
                unsupported(ex, "query made of other arguments")
            return fresh_query(ex, kinds, lambda q: [stands(q) == in_mode(stands(args[0].x), args[1].x)])
        return h
    x["new:ObjectQuery"] = built("Query")
    reg.add(Spec(TEXTPY, "parse_string_dialect", {"query_str": Q, "multi_index_mode": STR}, Q, modifies=["alloc:Q"], trusted="text queries: P16",
                 ensures=[("", lambda c: And(new_style(c.res), stands(c.res) == in_mode(stands(c.p.query_str), c.p.multi_index_mode), c.res != null("Q")))]))
    reg.methods[("Q", "_get_new_query")] = lambda ex, recv, args, kw, e: fresh_query(ex, ("Query",) + COMPOUND, lambda q: [same(q, recv.x)])

    def engine(ex, recv, args, kw, e):
        if len(args) != 3 or kw:
            unsupported(ex, "application of a query to other arguments")
        q, g, df = (a.x for a in args)
        ex.prove("the query is one the engine knows", new_style(q))
        me = ex.entry_vals["self"].x
        ex.prove("the query is applied to the graph and the table of the graphframe", And(g == ex.h0["GraphFrame.graph"][0][me], *[a == ex.h0["DataFrame." + k][0][ex.h0["GraphFrame.dataframe"][0][me]] for a, k in zip(get(ex, df), FIELDS)]))
        ch, r = ex.hget("Node.children")[0], ex.hget("Graph.roots")[0][g]
        s = const("matches", NS_)
        ex.seq_types.add(N)
        for p in (SN.mem(s, n_), sem(q, n_)):
            ex.fact(FA([n_], SN.mem(s, n_) == And(greach(ch, r, n_), sem(q, n_)), patterns=[p]))
        return V(NS_, s)
    reg.cls("Engine", "external", "engine of a graphframe")
    reg.methods[("Engine", "apply")] = engine
    reg.assumptions.append("QueryEngine.apply gives the nodes of the graph the query stands for (proved by the checks of P13 and P14), _get_new_query the query an old one stands for (P14), ObjectQuery and parse_string_dialect the query a list or text stands for in the given mode (P15, P16); lists, texts and query objects are not callable")


def one_part():
    def items(c):
        old, new = c.h0.items(c.p.queue), c.h.items(c.p.queue)
        last = LS.at(new, LS.len(old))
        c0, l0 = c.h0.content(c.p.dataframe), c.h0.labels(c.p.dataframe)
        return And(LS.len(new) == LS.len(old) + 1, FA([i_], Imp(And(0 <= i_, i_ < LS.len(old)), LS.at(new, i_) == LS.at(old, i_)), patterns=[LS.at(new, i_)]), kept(last, l0, lambda p: rowpred(c.p.filter_function, c0, p)))
    q = z3.Const("qu", sort_of(QUEUE))
    return Spec(GFPY, "parallel_apply", {"filter_function": FILTER, "dataframe": DF, "queue": QUEUE}, NONE, modifies=["Queue.items", "DataFrame.content", "DataFrame.labels", "DataFrame.index", "alloc:DataFrame"],
                requires=[("the row labels are columns", lambda c: c.h0.index(c.p.dataframe) == RANGE), ("the rows of the table are in order", lambda c: increasing(c.h0.labels(c.p.dataframe))), ("the table exists", lambda c: c.h0.alive("DataFrame", c.p.dataframe))],
                ensures=[("one more item is put: the rows for which the function holds", items), ("no other queue changes", lambda c: FA([q], Or(q == c.p.queue, c.h.arr("Queue.items")[q] == c.h0.arr("Queue.items")[q]), patterns=[c.h.arr("Queue.items")[q]])),
                         ("tables that were there are unchanged", tables_kept)])


class Filtering:
    def __init__(self, c):
        self.c = c
        self.me = c.p.self
        self.df = c.h0.dataframe(self.me)
        self.content, self.labels, self.index = (getattr(c.h0, k)(self.df) for k in FIELDS)
        self.ch, self.roots, self.nid = c.h0.arr("Node.children"), c.h0.roots(c.h0.graph(self.me)), c.h0.arr("Node.nid")
        self.f = c.p.filter_obj

    def reach(self, n):
        return greach(self.ch, self.roots, n)

    def holds(self, x):
        """What it means for the row x to satisfy the filter."""
        if self.c.pv("filter_obj").t == FILTER:
            return rowpred(self.f, self.content, x)
        return If(kind(self.f, "list", "str"), holds(in_mode(stands(self.f), self.c.p.multi_index_mode), nodeof(self.content, x)), sem(self.f, nodeof(self.content, x)))

    def known(self):
        return z3.BoolVal(True) if self.c.pv("filter_obj").t == FILTER else kind(self.f, "list", "str", "Query", *(COMPOUND + OLD))

    def none(self):
        return FA([x_], Imp(SI.mem(self.labels, x_), Not(self.holds(x_))), patterns=[SI.mem(self.labels, x_)])


def filtering():
    def setting(c):
        s = Filtering(c)
        return And(s.index == index_of(names_of(s.index)), s.index != RANGE, CS.mem(names_of(s.index), strlit("node")), increasing(s.labels), SI.len(s.labels) > 0)

    def nodes(c):
        s = Filtering(c)
        return And(FA([x_], Imp(SI.mem(s.labels, x_), s.reach(nodeof(s.content, x_))), patterns=[nodeof(s.content, x_)]), FA([n_, m_], Imp(And(s.reach(n_), s.reach(m_), s.nid[n_] == s.nid[m_]), n_ == m_), patterns=[MP(s.reach(n_), s.reach(m_))]))

    def res(c):
        return source(c.res) if "squashed" in c.view else c.res

    def rows(c):
        s = Filtering(c)
        l = c.h.labels(c.h.dataframe(res(c)))
        return kept(l, s.labels, s.holds)

    def values(c):
        s = Filtering(c)
        d = c.h.dataframe(res(c))
        return And(c.h.content(d) == s.content, c.h.index(d) == s.index, d != s.df, Not(c.h0.alive("DataFrame", d)))

    def rest(c):
        r, me = res(c), c.p.self
        return And(*[c.h.arr("GraphFrame." + k)[r] == c.h0.arr("GraphFrame." + k)[me] for k in ("graph", "exc", "inc", "default", "metadata")], Not(c.h0.alive("GraphFrame", r)))

    def unchanged(c):
        g = z3.Const("gf", sort_of(GF))
        ks = [k for k in ("graph", "dataframe", "exc", "inc", "default", "metadata", "engine")]
        return And(tables_kept(c), FA([g], Imp(c.h0.alive("GraphFrame", g), And(*[c.h.arr("GraphFrame." + k)[g] == c.h0.arr("GraphFrame." + k)[g] for k in ks])), patterns=[c.h.arr("GraphFrame." + k)[g] for k in ks]))

    # the loops of the parallel case
    def parts(c):
        """Every part of the table is a table of its own, none of which changes."""
        s, k = Filtering(c), c.p.num_procs
        subs = c.v.subframes
        l0 = s.labels
        d = DS.at(subs, i_)
        return And(DS.len(subs) == k, FA([i_], Imp(And(0 <= i_, i_ < k), And(c.h.alive("DataFrame", d), c.h.content(d) == s.content, c.h.index(d) == RANGE, kept(c.h.labels(d), l0, lambda p: part(s.content, l0, k, p) == i_))), patterns=[d]))

    def copy_ok(c):
        s, d = Filtering(c), c.v.dataframe_copy
        return And(c.h.alive("DataFrame", d), Not(c.h0.alive("DataFrame", d)), c.h.content(d) == s.content, c.h.labels(d) == s.labels, c.h.index(d) == RANGE)

    def filtered(c, n):
        s, items = Filtering(c), c.h.items(c.v.queue)
        it = LS.at(items, i_)
        return And(LS.len(items) == n, FA([i_], Imp(And(0 <= i_, i_ < n), kept(it, s.labels, lambda p: And(part(s.content, s.labels, c.p.num_procs, p) == i_, rowpred(s.f, s.content, p)))), patterns=[it]))

    def taken(c):
        q, n = c.v.queue, c.p.num_procs
        fr = c.v.returned_frames
        if isinstance(fr, tuple):
            fr = DS.empty
        d = DS.at(fr, i_)
        items = c.h.items(q)
        p = perm(q, n, i_)
        return And(c.h.taken(q) == c.i, DS.len(fr) == c.i, FA([i_], Imp(And(0 <= i_, i_ < c.i), And(c.h.alive("DataFrame", d), 0 <= p, p < n, c.h.labels(d) == LS.at(items, p))), patterns=[d, p]))

    def arrivals(c):
        """Every item arrives once, and only once."""
        if c.pv("filter_obj").t != FILTER:
            return []
        q, n = z3.Const("qu", sort_of(QUEUE)), z3.Int("n")
        back = fn("arrives_as", sort_of(QUEUE), I, I, I)
        p = perm(q, n, i_)
        return [FA([q, n, i_], Imp(And(0 <= i_, i_ < n), And(0 <= p, p < n, back(q, n, p) == i_)), patterns=[p]),
                FA([q, n, i_], Imp(And(0 <= i_, i_ < n), And(0 <= back(q, n, i_), back(q, n, i_) < n, perm(q, n, back(q, n, i_)) == i_)), patterns=[back(q, n, i_)])]

    def arrived(c):
        """(a hint) every part of the table has arrived as some item"""
        s, q, n = Filtering(c), c.v.queue, c.p.num_procs
        back = fn("arrives_as", sort_of(QUEUE), I, I, I)
        w = part(s.content, s.labels, n, x_)
        b = back(q, n, w)
        return FA([x_], Imp(SI.mem(s.labels, x_), And(0 <= b, b < n, perm(q, n, b) == w)), patterns=[SI.mem(s.labels, x_)])

    def others(c):
        return And(tables_kept(c), z3.BoolVal(True))
    P = [("the parts of the table", parts), ("the copy of the table", copy_ok), ("tables that were there are unchanged", others)]
    sp = Spec(GFPY, "GraphFrame.filter", {"self": GF, "filter_obj": FILTER, "squash": BOOL, "update_inc_cols": BOOL, "num_procs": INT, "rec_limit": INT, "multi_index_mode": STR}, GF,
              views={"function": {"squash": False}, "function, squashed": {"squash": True}, "query": {"filter_obj": Q, "squash": False}, "query, squashed": {"filter_obj": Q, "squash": True}},
              modifies=["DataFrame.content", "DataFrame.labels", "DataFrame.index", "Queue.items", "Queue.taken", "alloc:DataFrame", "alloc:GraphFrame", "alloc:Queue", "alloc:Process", "alloc:Engine", "alloc:Q"] + ["GraphFrame." + k for k in ("graph", "dataframe", "exc", "inc", "default", "metadata", "engine")],
              entry=lambda c: theory() + greach_axioms(Filtering(c).ch, Filtering(c).roots) + arrivals(c),
              requires=[("the table has rows, in order, and its index with a level of nodes", setting), ("the rows are of nodes of the graph, which have different numbers", nodes), ("the table exists", lambda c: c.h0.alive("DataFrame", Filtering(c).df)), (CLOSED, lambda c: And(c.h0.graph(c.p.self) != null("Graph"), c.h0.dataframe(c.p.self) != null("DataFrame")))],
              raises={"InvalidFilter": lambda c: Not(Filtering(c).known()), "EmptyFilter": lambda c: And(Filtering(c).known(), Filtering(c).none())},
              ensures=[("exactly the rows that satisfy the filter are kept, in order", rows), ("their values and labels are unchanged, in a new table", values), ("the graph and the metrics are those of the original", rest),
                       ("squash is passed the flag", lambda c: source_flag(c.res) == c.p.update_inc_cols if "squashed" in c.view else z3.BoolVal(True)), ("the original and all other graphframes and tables are unchanged", unchanged)],
              loops={0: P + [("the parts are filtered one by one", lambda c: filtered(c, c.i)), ("nothing is taken yet", lambda c: c.h.taken(c.v.queue) == 0)],
                     1: P + [("all parts are filtered", lambda c: filtered(c, c.p.num_procs)), ("the filtered parts are taken one by one", taken), ("every part arrives", arrived)],
                     2: []})
    sp.types = {"returned_frames": Seq(DF), "processes": Seq(PROC)}
    return sp


def build():
    reg = base()
    pandas(reg)
    queries(reg)
    reg.add(Spec(GFPY, "GraphFrame.squash", {"self": GF, "update_inc_cols": BOOL}, GF, trusted="P08", ensures=[("", lambda c: And(source(c.res) == c.p.self, source_flag(c.res) == c.p.update_inc_cols))]))
    reg.assumptions.append("squash, which filter may end with, leaves the graphframe it is given and all others as they were (P08)")
    reg.add(one_part())
    reg.add(filtering())
    return reg
