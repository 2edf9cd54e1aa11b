"""P15: an object-form filter holds for a node's rows exactly when every one of its conditions does.

The contract of _process_predicate is one on the function it returns: applied to the row (or rows) of any node, it
gives the conjunction of what the conditions mean, or raises InvalidQueryFilter where a condition of the wrong type is
the first that decides. Assumed: what eval makes of a number followed by a comparison text, regular expressions,
pandas' tests for missing values and column types."""
from .model import *
from pyvc.exec import IterDesc, Builtin, ModuleVal, PyRaise, str_map, str_test
import ast

OBJ = "hatchet/query/object_dialect.py"
ROW, ROWS, FILTER = Ref("Row"), Ref("Rows"), Sort("Filter")
VALS, BITS, ENTRIES = Seq(VAL), Seq(BOOL), Seq(Tup(STR, VAL))
VS, BS, ES = SeqTheory(VAL), SeqTheory(BOOL), SeqTheory(Tup(STR, VAL))
V_S, STR_S, ROW_S, ROWS_S, F_S = sort_of(VAL), sort_of(STR), usort("Row"), usort("Rows"), usort("Filter")
is_str, is_real, iterable, is_null, is_inf = (fn(n, V_S, B) for n in ("is_str", "is_real", "is_iterable", "is_null", "is_infinite"))
text, shown = fn("text_of", V_S, STR_S), fn("shown_as", V_S, STR_S)
num_eq, num_lt = fn("num_eq", V_S, V_S, B), fn("num_lt", V_S, V_S, B)
vint = fn("val_of_int", I, V_S)
holds = fn("comparison_holds", V_S, STR_S, B)  # the number on the left of the comparison text
matches = fn("matches_completely", STR_S, STR_S, B)  # pattern, text
contains = fn("text_contains", STR_S, STR_S, B)
items = fn("items_of", V_S, sort_of(VALS))
conds = fn("conditions_of", V_S, sort_of(VALS))
entries = fn("entries", F_S, sort_of(ENTRIES))
value_of = fn("value_of", F_S, STR_S, V_S)
has, at = fn("row_has", ROW_S, STR_S, B), fn("row_value", ROW_S, STR_S, V_S)
has_c, col = fn("rows_have", ROWS_S, STR_S, B), fn("rows_values", ROWS_S, STR_S, sort_of(VALS))
str_col, num_col = fn("is_text_column", sort_of(VALS), B), fn("is_number_column", sort_of(VALS), B)
NAN, INF, NINF = (z3.Const(n, V_S) for n in ("val_nan", "val_inf", "val_minus_inf"))
LEFT = {"np.nan": NAN, "np.inf": INF, "-np.inf": NINF, "pd.NA": NAN, "numpy.nan": NAN, "numpy.inf": INF}
OPS = ("<", ">", "==", ">=", "<=", "<>", "!=")
v_, w_, u_ = z3.Consts("v w u", V_S)
t_, s_ = z3.Consts("t s", STR_S)
f_ = z3.Const("f", F_S)
l_ = z3.Const("l", sort_of(VALS))
rw_, rs_ = z3.Const("rw", ROW_S), z3.Const("rs", ROWS_S)


def comparison(t):
    """The text starts with a comparison operator."""
    return Or(*[str_test("startswith")(t, strlit(o)) for o in OPS])


def finite(v):
    return And(is_real(v), Not(is_null(v)), Not(is_inf(v)))


def values():
    low = str_map("lower")
    return [FA([v_], Imp(is_str(v_), And(Not(is_real(v_)), iterable(v_), shown(v_) == text(v_))), patterns=[is_str(v_)]),
            FA([i_], And(finite(vint(i_))), patterns=[vint(i_)]),
            FA([v_, w_], num_eq(v_, w_) == num_eq(w_, v_), patterns=[num_eq(v_, w_)]),
            *[FA([t_], str_test("startswith")(low(t_), strlit(o)) == str_test("startswith")(t_, strlit(o)), patterns=[str_test("startswith")(low(t_), strlit(o))]) for o in OPS],
            # missing values are NaN to a comparison; the infinities are two numbers, told apart by their sign
            FA([v_, t_], Imp(And(is_real(v_), is_null(v_)), holds(v_, t_) == holds(NAN, t_)), patterns=[holds(v_, t_)]),
            FA([v_, t_], Imp(And(is_real(v_), Not(is_null(v_)), is_inf(v_)), holds(v_, t_) == If(num_lt(vint(0), v_), holds(INF, t_), holds(NINF, t_))), patterns=[holds(v_, t_)]),
            is_real(NAN), is_null(NAN), is_real(INF), is_real(NINF), is_inf(INF), is_inf(NINF), Not(is_null(INF)), Not(is_null(NINF)),
            FA([v_], Imp(is_real(v_), And(is_inf(v_) == And(Not(is_null(v_)), is_inf(v_)))), patterns=[is_inf(v_)]),
            FA([v_], If(And(iterable(v_), Not(is_str(v_))), conds(v_) == items(v_), And(VS.len(conds(v_)) == 1, VS.at(conds(v_), 0) == v_)), patterns=[conds(v_)]),
            FA([v_], VS.len(items(v_)) >= 0, patterns=[items(v_)]),
            FA([f_], ES.len(entries(f_)) >= 0, patterns=[entries(f_)]),
            FA([f_], fn("truth_Filter", F_S, B)(f_) == (ES.len(entries(f_)) > 0), patterns=[fn("truth_Filter", F_S, B)(f_)]),
            FA([f_, i_], Imp(And(0 <= i_, i_ < ES.len(entries(f_))), value_of(f_, name_of(f_, i_)) == cond_of(f_, i_)), patterns=[ES.at(entries(f_), i_)]),
            FA([l_, i_], Imp(And(str_col(l_), 0 <= i_, i_ < VS.len(l_)), is_str(VS.at(l_, i_))), patterns=[MP(str_col(l_), VS.at(l_, i_))]),
            FA([l_, i_], Imp(And(num_col(l_), 0 <= i_, i_ < VS.len(l_)), is_real(VS.at(l_, i_))), patterns=[MP(num_col(l_), VS.at(l_, i_))]),
            FA([l_], Not(And(str_col(l_), num_col(l_))), patterns=[str_col(l_)])]


def name_of(f, i):
    return unpack(Tup(STR, VAL), ES.at(entries(f), i)).x[0].x


def cond_of(f, i):
    return unpack(Tup(STR, VAL), ES.at(entries(f), i)).x[1].x


# ---------------------------------------------------------------- meaning of one condition
def number(v, w):
    """(holds, wrong type) of the condition w on the number v."""
    is_cmp = And(is_str(w), comparison(text(w)))
    return If(is_cmp, If(And(is_null(v), contains(text(w), strlit("np.nan"))), True, holds(v, text(w))), And(is_real(w), num_eq(v, w))), And(Not(is_cmp), Not(is_real(w)))


def plain(v, w):
    is_cmp = And(is_str(w), comparison(text(w)))
    return If(is_cmp, holds(v, text(w)), And(is_real(w), num_eq(v, w))), And(Not(is_cmp), Not(is_real(w)))


def attribute(c, node, k, w, other):
    """(holds, wrong type) of the condition w on the attribute k."""
    d, nid, ch = c.h.arr("Node.depth")[node], c.h.arr("Node.nid")[node], c.h.arr("Node.children")[node]
    hd, bd = plain(vint(d), w)
    hn, bn = plain(vint(nid), w)
    leaf = And(is_real(w), num_eq(w, vint(-1)))
    ho, bo = other
    return (If(k == strlit("depth"), If(leaf, SN.len(ch) == 0, hd), If(k == strlit("node_id"), hn, ho)),
            If(k == strlit("depth"), bd, If(k == strlit("node_id"), bn, bo)))


def on_row(c, k, w):
    row = c.ex.arg
    v = at(row, k)
    hn, bn = number(v, w)
    txt = And(is_str(w), matches(text(w), text(v)))
    return attribute(c, c.h.arr("Row.node")[row], k, w, (And(has(row, k), If(is_str(v), txt, And(is_real(v), hn))), And(has(row, k), If(is_str(v), Not(is_str(w)), Or(Not(is_real(v)), bn)))))


def on_rows(c, k, w):
    rows, mode = c.ex.arg, c.p.multi_index_mode
    vals = col(rows, k)
    i = z3.Int("row")

    def agg(p):
        rng = And(0 <= i, i < VS.len(vals))
        return If(mode == strlit("any"), z3.Exists([i], And(rng, p(VS.at(vals, i)))), FA([i], Imp(rng, p(VS.at(vals, i))), patterns=[VS.at(vals, i)]))
    is_cmp = And(is_str(w), comparison(text(w)))
    txt = And(is_str(w), agg(lambda v: matches(text(w), text(v))))
    num = And(Or(is_cmp, is_real(w)), agg(lambda v: number(v, w)[0]))
    return attribute(c, c.h.arr("Rows.node")[rows], k, w, (And(has_c(rows, k), If(str_col(vals), txt, And(num_col(vals), num))),
                                                            And(has_c(rows, k), If(str_col(vals), Not(is_str(w)), Or(Not(num_col(vals)), And(Not(is_cmp), Not(is_real(w))))))))


# ---------------------------------------------------------------- the filter: all conditions of all entries
H, BAD = fn("condition_holds", I, I, B), fn("condition_of_wrong_type", I, I, B)  # entry, condition
ALL, BEFORE, BEGUN = fn("entry_holds", I, B), fn("first_entries_hold", I, B), fn("first_conditions_hold", I, I, B)


def meaning(c):
    """Definitions of H, BAD and ALL for the filter and the row (or rows) at hand."""
    f, on = c.p.attr_filter, on_row if c.view == "one row" else on_rows
    w = VS.at(conds(cond_of(f, i_)), j_)
    h, b = on(c, name_of(f, i_), w)
    n = VS.len(conds(cond_of(f, i_)))
    rng = And(0 <= i_, i_ < ES.len(entries(f)), 0 <= j_, j_ < n)
    return [FA([i_], VS.len(conds(cond_of(f, i_))) >= 0, patterns=[ES.at(entries(f), i_)]),
            FA([i_, j_], Imp(rng, And(H(i_, j_) == And(h, Not(b)), BAD(i_, j_) == b)), patterns=[MP(ES.at(entries(f), i_), w), H(i_, j_), BAD(i_, j_)]),
            # BEGUN(i, j): the first j conditions of entry i hold; BEFORE(i): the first i entries hold
            FA([i_], BEGUN(i_, 0), patterns=[ALL(i_)]), BEFORE(0),
            FA([i_, j_], Imp(j_ >= 0, BEGUN(i_, j_ + 1) == And(BEGUN(i_, j_), H(i_, j_))), patterns=[H(i_, j_)]),
            FA([i_, j_, k_], Imp(And(j_ >= 0, k_ > j_, k_ <= j_ + 1), BEGUN(i_, k_) == And(BEGUN(i_, j_), H(i_, j_))), patterns=[MP(BEGUN(i_, j_), BEGUN(i_, k_))]),
            FA([i_], ALL(i_) == BEGUN(i_, n), patterns=[ALL(i_)]),
            FA([i_], Imp(i_ >= 0, BEFORE(i_ + 1) == And(BEFORE(i_), ALL(i_))), patterns=[ES.at(entries(f), i_)])]


def due(c, i):
    """Among the first i entries there is a condition of the wrong type before which all conditions hold."""
    f = c.p.attr_filter
    a, b = z3.Ints("entry cond")
    return z3.Exists([a, b], And(0 <= a, a < i, 0 <= b, b < VS.len(conds(cond_of(f, a))), BAD(a, b), BEFORE(a), BEGUN(a, b)))


def due_here(c, i, j):
    b = z3.Int("cond")
    return z3.Exists([b], And(0 <= b, b < j, BAD(i, b), BEFORE(i), BEGUN(i, b)))


def outer(c):
    return [c.v.matches == BEFORE(c.i), Not(due(c, c.i))]


def inner(c):
    i = c.outer[-1].i
    return [c.v.matches == And(BEFORE(i), BEGUN(i, c.i)), Not(due(c, i)), Not(due_here(c, i, c.i))]


NAMES = ["the conditions so far are what is computed", "no condition so far had to be reported"]
INNER = NAMES + ["no condition of the entry so far had to be reported"]


def apply_it(ex, c):
    """The state in which the function is applied, and the row it is applied to."""
    for key in ex.reg.fields:
        ex.heap[key] = ex.fresh_field(key, key + "_call_")
    ex.h0 = dict(ex.heap)
    v = ex.param("row", ROW if c.view == "one row" else ROWS)
    ex.arg = v.x
    c = ex.ctx()
    for x in values() + meaning(c):
        ex.fact(x)
    node = c.h.arr("Row.node" if c.view == "one row" else "Rows.node")[v.x]
    ex.fact(node != null("Node"))
    return [v]


def predicate():
    n = lambda c: ES.len(entries(c.p.attr_filter))
    off = lambda c: And(c.view == "several rows", c.p.multi_index_mode == strlit("off"), n(c) > 0)
    mode_ok = lambda c: Or(*[c.p.multi_index_mode == strlit(m) for m in ("off", "all", "any")])
    sp = Spec(OBJ, "_process_predicate", {"attr_filter": FILTER, "multi_index_mode": STR}, BOOL, views={"one row": {}, "several rows": {}},
              requires=[("the mode is one of the three", mode_ok)], entry=lambda c: values(),
              raises={"MultiIndexModeMismatch": off, "InvalidQueryFilter": lambda c: And(Not(off(c)), due(c, n(c)))},
              ensures=[("the function gives the conjunction of all conditions of all entries", lambda c: c.res == BEFORE(n(c)))])
    sp.call_result = apply_it
    sp.inline_loops = {}
    for q in ("filter_series", "filter_dframe"):
        q = "_process_predicate." + q
        for k, (inv, nms) in enumerate(((outer, NAMES), (inner, INNER))):
            sp.inline_loops[(q, k)] = [(nm, lambda c, inv=inv, x=x: inv(c)[x]) for x, nm in enumerate(nms)]
    return sp


def multi_mode():
    m = lambda c, x: c.p.multi_index_mode == strlit(x)
    r = lambda c: c.p.apply_result
    rng = lambda c: And(0 <= i_, i_ < BS.len(r(c)))
    return Spec(OBJ, "_process_multi_index_mode", {"apply_result": BITS, "multi_index_mode": STR}, BOOL,
                raises={"ValueError": lambda c: And(Not(m(c, "any")), Not(m(c, "all")))},
                ensures=[("any: some row", lambda c: Imp(m(c, "any"), c.res == z3.Exists([i_], And(rng(c), BS.at(r(c), i_))))),
                         ("all: every row", lambda c: Imp(m(c, "all"), c.res == FA([i_], Imp(rng(c), BS.at(r(c), i_)), patterns=[BS.at(r(c), i_)])))])


# ---------------------------------------------------------------- the operations the code uses
def as_val(ex, v):
    if v.t == VAL:
        return v.x
    if v.t == INT:
        return vint(v.x)
    if v.t == PY and isinstance(v.x, ModuleVal) and v.x.name in LEFT:
        return LEFT[v.x.name]
    return None


def hooks(reg):
    def isinst(ex, a, name, c):
        if a.t in (ROW, ROWS):
            return z3.BoolVal({"pandas.DataFrame": ROWS, "pandas.Series": ROW}.get(name) == a.t)
        if a.t == VAL and name == "str":
            return is_str(a.x)
        if a.t == VAL and name == "numbers.Real":
            return is_real(a.x)
        return None
    reg.externs["builtin:isinstance_term"] = isinst

    def eq(ex, a, b):
        x, y = as_val(ex, a), as_val(ex, b)
        if x is None or y is None:
            return None
        ex.prove("numbers are compared", And(is_real(x), is_real(y)))
        return num_eq(x, y)
    reg.externs["op:ValEq"] = eq

    def order(ex, op, a, b):
        x, y = as_val(ex, a), as_val(ex, b)
        if x is None or y is None:
            return None
        ex.prove("numbers are compared", And(is_real(x), is_real(y)))
        if isinstance(op, ast.Lt):
            return num_lt(x, y)
        if isinstance(op, ast.Gt):
            return num_lt(y, x)
        return None
    reg.externs["op:Order"] = order

    def feq(ex, vs):
        for a, b in (vs, vs[::-1]):
            if a.t == FILTER and ex.read(b).t == T("emptymap"):
                return V(BOOL, ES.len(entries(a.x)) == 0)
        return None
    reg.externs["op:Eq"] = feq

    def as_text(ex, v):
        x = as_val(ex, v)
        if x is None:
            return None
        r = V(STR, shown(x))
        r.of = x
        return r
    reg.externs["op:str"] = as_text

    def evaluate(ex, args, kw, e):
        """eval of a number followed by a comparison text; of a literal expression."""
        a = args[0]
        ps = getattr(a, "parts", None) or [a]
        env = args[2] if len(args) > 2 else None
        if len(ps) == 1 and getattr(ps[0], "lit", None) is not None:
            return ex.eval(ast.parse(ps[0].lit, mode="eval").body, ex.frame)
        w = getattr(ps[-1], "of", None)
        if w is None:
            raise Unsupported("eval at line %d" % ex.line)
        if len(ps) == 2 and getattr(ps[0], "lit", None) is not None:
            left = ps[0].lit.strip()
            if left in LEFT:
                x = LEFT[left]
            elif env is not None and left.isidentifier():
                x = as_val(ex, ex.get_item(env, ex.literal(left)))
            else:
                x = None
        elif len(ps) in (2, 3) and getattr(ps[0], "of", None) is not None and (len(ps) == 2 or getattr(ps[1], "lit", "x").strip() == ""):
            x = ps[0].of
            ex.prove("the text of the number is an expression for it", finite(x))
        else:
            x = None
        if x is None:
            raise Unsupported("eval at line %d" % ex.line)
        ex.prove("what follows the number is a comparison", And(is_str(w), comparison(text(w))))
        return V(BOOL, holds(x, text(w)))
    reg.externs["builtin:eval"] = evaluate
    def plus(ex, vs):
        out = []
        for v in vs:
            if v.t == VAL:
                ex.prove("only texts are put together", is_str(v.x))
                v = as_text(ex, v)
            if v.t != STR:
                return None
            out.append(v)
        return ex.concat(out)
    reg.externs["op:Add"] = plus
    reg.externs["builtin:len"] = lambda ex, args, kw, e: V(INT, ES.len(entries(args[0].x))) if args[0].t == FILTER else None
    reg.externs["builtin:str"] = lambda ex, args, kw, e: as_text(ex, args[0])
    reg.externs["builtin:globals"] = lambda ex, args, kw, e: NONEV

    def iter_(ex, args, kw, e):
        a = args[0]
        if a.t != VAL:
            return None
        if not ex.branch(iterable(a.x)):
            raise PyRaise("TypeError", ex.line)
        return fresh("iterator", Sort("Iterator"))
    reg.externs["builtin:iter"] = iter_

    def iter_val(ex, v, args, kw, e):
        if not ex.branch(iterable(v.x)):
            raise PyRaise("TypeError", ex.line)
        ex.prove("a text is one condition, not a list of them", Not(is_str(v.x)))
        return ex.iterate(V(VALS, items(v.x)))
    reg.methods[("val", "__iter__")] = iter_val

    def test(f):
        def h(ex, args, kw, e):
            x = as_val(ex, args[0])
            if x is None:
                raise Unsupported("argument at line %d" % ex.line)
            return V(BOOL, f(x))
        return h
    reg.externs["pandas.isnull"] = reg.externs["pandas.isna"] = test(is_null)

    def isnan(ex, args, kw, e):
        x = as_val(ex, args[0])
        ex.prove("the argument is a number", is_real(x))
        return V(BOOL, is_null(x))
    reg.externs["numpy.isnan"] = isnan

    def isinf(ex, args, kw, e):
        x = as_val(ex, args[0])
        ex.prove("the argument is a number", is_real(x))
        return V(BOOL, And(Not(is_null(x)), is_inf(x)))
    reg.externs["numpy.isinf"] = isinf

    def match(ex, args, kw, e):
        p, s = args
        ex.prove("a pattern is matched with a text", And(is_str(p.x), is_str(s.x)))
        return V(Opt(Sort("Match")), (Not(matches(text(p.x), text(s.x))), fresh("match", Sort("Match"))))
    reg.externs["re.fullmatch"] = match

    def lower(ex, recv, args, kw, e):
        ex.prove("only texts have this method", is_str(recv.x))
        return V(STR, str_map("lower")(text(recv.x)))

    def text_method(name):
        def h(ex, recv, args, kw, e):
            ex.prove("only texts have this method", is_str(recv.x))
            r = ex.str_method(name, V(STR, text(recv.x)), args)
            if r is None:
                raise Unsupported("method %s at line %d" % (name, ex.line))
            return r
        return h
    for nm in ("lower", "startswith", "endswith", "strip", "upper"):
        reg.methods[("val", nm)] = text_method(nm)

    def val_in(ex, c, args, kw, e):
        ex.prove("the right operand of in is a text", is_str(c.x))
        return V(BOOL, contains(text(c.x), args[0].x))
    reg.methods[("val", "__contains__")] = val_in

    def prop(f):
        f.is_property = True
        return f
    keys = lambda ex, recv, args, kw, e: V(T("keysof"), recv)
    reg.methods[("Row", "keys")] = keys
    reg.methods[("Row", "index")] = reg.methods[("Rows", "columns")] = prop(lambda ex, recv, args, kw, e: V(T("keysof"), recv))
    reg.methods[("Rows", "keys")] = keys

    def key_in(ex, c, args, kw, e):
        r = c.x if c.t == T("keysof") else c
        return V(BOOL, (has if r.t == ROW else has_c)(r.x, args[0].x))
    for k in ("keysof", "Row", "Rows"):
        reg.methods[(k, "__contains__")] = key_in

    def item(ex, c, args, kw, e):
        k = args[0]
        if k.t != STR:
            raise Unsupported("row label at line %d" % ex.line)
        if not ex.branch((has if c.t == ROW else has_c)(c.x, k.x)):
            raise PyRaise("KeyError", ex.line)
        return V(VAL, at(c.x, k.x)) if c.t == ROW else V(VALS, col(c.x, k.x))
    reg.methods[("Row", "__getitem__")] = reg.methods[("Rows", "__getitem__")] = item

    def rows_name(ex, recv, args, kw, e):
        return V(T("rownames"), (recv, 0))
    reg.methods[("Rows", "name")] = prop(rows_name)
    reg.methods[("rownames", "to_frame")] = lambda ex, recv, args, kw, e: V(T("nameframe"), recv.x)

    def labels_item(ex, c, args, kw, e):
        # df_row.name.to_frame().index[0][0]: the node of the first row label
        b = c.x
        if c.t == PY and isinstance(b, Builtin) and b.name == "index" and b.recv is not None and b.recv.t == T("nameframe") and ex.concrete_int(args[0]) == 0:
            return V(T("rowlabel"), b.recv.x)
        if c.t == T("rowlabel") and ex.concrete_int(args[0]) == 0:
            rows = b[0]
            return V(N, ex.hget("Rows.node")[0][rows.x])
        raise Unsupported("row label at line %d" % ex.line)
    reg.methods[("py", "__getitem__")] = reg.methods[("rowlabel", "__getitem__")] = labels_item

    for nm, f in (("is_string_dtype", str_col), ("is_numeric_dtype", num_col)):
        def dtype(ex, args, kw, e, f=f):
            return V(BOOL, f(args[0].x))
        reg.externs["pandas.api.types." + nm] = dtype

    def apply_(ex, recv, args, kw, e):
        c = ex.read(recv)
        if c.t != VALS:
            raise Unsupported("apply at line %d" % ex.line)
        i = z3.Int(fresh_name("ix"))
        sn = ex.snap()
        ex.fact(And(0 <= i, i < VS.len(c.x)))
        x = V(VAL, VS.at(c.x, i))
        v = ex.merge_eval(lambda: V(BOOL, ex.truth(ex.call_value(args[0], [x], {}, None, ex.frame))), ex.frame, "function applied to a column")
        term = ex.truth(v)
        ex.restore(sn)
        r = const("applied", BITS)
        ex.seq_types.add(BOOL)
        at_j = z3.substitute(term, (i, j_))
        ex.fact(BS.len(r) == VS.len(c.x))
        ex.fact(FA([j_], Imp(And(0 <= j_, j_ < VS.len(c.x)), BS.at(r, j_) == at_j), patterns=[BS.at(r, j_)]))
        ex.fact(FA([j_], Imp(And(0 <= j_, j_ < VS.len(c.x)), BS.at(r, j_) == at_j), patterns=[VS.at(c.x, j_)]))
        return V(BITS, r)
    reg.methods[("seq", "apply")] = reg.methods[("seq", "map")] = apply_

    def quant(name):
        def h(ex, recv, args, kw, e):
            c = ex.read(recv)
            rng = And(0 <= i_, i_ < BS.len(c.x))
            return V(BOOL, z3.Exists([i_], And(rng, BS.at(c.x, i_))) if name == "any" else FA([i_], Imp(rng, BS.at(c.x, i_)), patterns=[BS.at(c.x, i_)]))
        return h
    reg.methods[("seq", "any")], reg.methods[("seq", "all")] = quant("any"), quant("all")

    reg.methods[("Filter", "items")] = lambda ex, recv, args, kw, e: V(ENTRIES, entries(recv.x))

    def filter_iter(ex, v, args, kw, e):
        return IterDesc(ES.len(entries(v.x)), lambda i: V(STR, name_of(v.x, i)), V(ENTRIES, entries(v.x)))
    reg.methods[("Filter", "__iter__")] = filter_iter
    reg.methods[("Filter", "keys")] = lambda ex, recv, args, kw, e: recv
    reg.methods[("Filter", "__getitem__")] = lambda ex, c, args, kw, e: V(VAL, value_of(c.x, args[0].x))


def build():
    reg = base()
    reg.cls("Row", OBJ, "Series", node=("name", N))
    reg.cls("Rows", OBJ, "DataFrame", node=("the node", N))
    hooks(reg)
    reg.add(multi_mode())
    reg.add(predicate())
    reg.assumptions += [
        "eval of a finite number's text (or of a name bound to the number) followed by a comparison text is that comparison with that number on the left; what the comparison text says is taken as written (an uninterpreted relation between a number and a text)",
        "NaN and missing values compare alike, the infinities are two numbers told apart by their sign; re.fullmatch is a relation between pattern and text (patterns are valid); numbers compare with == and > by value",
        "pandas: a row is a series over the columns named by its node, several rows of one node are a table whose row names start with it; apply calls the function on every value, any and all combine the results; a column of texts has texts only, one of numbers numbers only",
        "a filter is a dictionary whose entries are read in its order and not changed meanwhile; the conditions of an entry can be read more than once",
    ]
    return reg
