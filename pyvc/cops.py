"""Meaning and obligations of the C-typed operations that pyx2py.py writes out."""
import ast
import z3
from .core import *

NAMES = {"__given__", "__wrap__", "__conv__", "__arith__", "__trunc__", "__floor__", "__divdouble__", "__todouble__", "__double__"}
DOUBLE = Sort("Double")


def bounds(ct):
    n = int(ct[1:])
    return (0, 2 ** n - 1) if ct[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def in_range(ct, x):
    lo, hi = bounds(ct)
    return z3.And(x >= lo, x <= hi)


def dfun(op):
    s = sort_of(DOUBLE)
    return z3.Function("double_" + {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], s, s, s)


def given(ex, v, ct):
    """Facts the types of the arguments give (Cython refuses other arguments)."""
    if isinstance(ct, str):
        if ct[0] in "iu" and v.t == INT:
            ex.fact(in_range(ct, v.x))
        elif not (ct == "double" and v.t == DOUBLE):
            raise Unsupported("argument of C type %s given as %s" % (ct, v.t))
        return
    cv = ex.read(v) if isinstance(v.x, Loc) else v
    want = {1: lambda t: t == (DOUBLE if ct[1] == "double" else INT), 2: lambda t: t.k == "tup" and all(x == INT for x in t.a)}[ct[2]]
    if cv.t.k != "seq" or not want(cv.t.a[0]):
        raise Unsupported("argument of C type %s given as %s" % (ct, cv.t))
    if ct[1] == "double":
        return
    th = SeqTheory(cv.t.a[0])
    i = z3.Int("i")
    el = unpack(cv.t.a[0], th.at(cv.x, i))
    xs = [el.x] if el.t == INT else [y.x for y in el.x]
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < th.len(cv.x)), z3.And(*[in_range(ct[1], x) for x in xs])), patterns=[th.at(cv.x, i)]))


def call(ex, name, args, e):
    from .exec import NONEV
    lit = lambda k: ast.literal_eval(e.args[k])
    if name == "__given__":
        given(ex, args[0], lit(1))
        return NONEV
    if name == "__wrap__":
        lo, hi = bounds(lit(0))
        n = hi - lo + 1
        x = args[1].x
        return V(INT, z3.simplify(z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % n + lo)))
    if name in ("__conv__", "__arith__"):
        v = ex.coerce(args[1], INT)
        ex.prove("no overflow of %s" % lit(0), in_range(lit(0), v.x))
        return v
    if name == "__divdouble__":
        a, b = args
        k = z3.simplify(b.x)
        if not z3.is_int_value(k) or k.as_long() <= 0 or k.as_long() & (k.as_long() - 1):
            raise Unsupported("division that is not by a constant power of two (line %d)" % ex.line)
        ex.prove("the division is exact", z3.And(a.x <= 2 ** 53, a.x >= -2 ** 53))
        return V(REAL, z3.ToReal(a.x) / z3.ToReal(b.x))
    if name == "__floor__" and args[0].t == REAL:
        return V(REAL, z3.ToReal(z3.ToInt(args[0].x)))
    if name == "__trunc__" and args[1].t == REAL:
        x = args[1].x
        r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        ex.prove("the number fits %s" % lit(0), in_range(lit(0), r))
        return V(INT, r)
    if name == "__double__" and all(a.t == DOUBLE for a in args[1:]):
        return V(DOUBLE, dfun(lit(0))(args[1].x, args[2].x))
    if name == "__todouble__" and args[0].t == DOUBLE:
        return args[0]
    raise Unsupported("%s of %s at line %d" % (name, [a.t for a in args], ex.line))


def zeros(ex, args, kwargs, e):
    """numpy.zeros(n, dtype=bool): n times False."""
    d = kwargs.get("dtype")
    dn = getattr(d.x, "name", "") if d is not None else ""
    if len(args) != 1 or args[0].t != INT or dn not in ("numpy.bool_", "numpy.bool"):
        raise Unsupported("numpy.zeros at line %d" % ex.line)
    th = SeqTheory(BOOL)
    ex.seq_types.add(BOOL)
    from .exec import const
    r = const("zeros", Seq(BOOL))
    i = z3.Int("i")
    ex.prove("the size is not negative", args[0].x >= 0)
    ex.fact(th.len(r) == args[0].x)
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < th.len(r)), z3.Not(th.at(r, i))), patterns=[th.at(r, i)]))
    return ex.new_box(V(Seq(BOOL), r))
