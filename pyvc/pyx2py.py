"""Cython source -> Python source, mechanically: Cython's own parser reads the .pyx, and every C-typed operation is
written as a call that names its C type, for pyvc to give its meaning and its obligations (no overflow, no index out of
range). Runs under the interpreter that has Cython. What it drops: imports, docstrings, compiler directives (bounds
checks are obligations whether they are on or off), and the `const` qualifier. Constructs it does not know are errors."""
import sys
from Cython.Compiler.TreeFragment import parse_from_strings


class Unknown(Exception):
    pass


def bail(n):
    raise Unknown("%s at line %s" % (type(n).__name__, n.pos[1] if n.pos else "?"))


def ctype(t):
    k = type(t).__name__
    if k == "CQualifierTypeNode":
        return ctype(t.base_type)
    if k == "MemoryViewSliceTypeNode":
        for a in t.axes:
            if type(a).__name__ != "SliceNode" or any(type(x).__name__ != "NoneNode" for x in (a.start, a.stop, a.step)):
                bail(t)
        return ("mv", ctype(t.base_type_node), len(t.axes))
    if k == "CSimpleBaseTypeNode":
        if not t.is_basic_c_type:
            if t.name is None or t.name in ("object", "list", "tuple"):
                return "object"
            if t.name == "Py_ssize_t":
                return "i64"
            if t.name == "size_t":
                return "u64"
            if t.name == "bint":
                return "i32"
            bail(t)
        if t.name == "double":
            return "double"
        if t.name == "int":
            return ("i" if t.signed else "u") + {-1: "16", 0: "32", 1: "64", 2: "64"}[t.longness]
    bail(t)


def isint(t):
    return isinstance(t, str) and t[0] in "iu" and t != "object"


def common(a, b):
    """C's usual arithmetic conversions (narrower types promote to int first)."""
    w = max(32, int(a[1:]), int(b[1:]))
    uns = [t for t in (a, b) if t[0] == "u" and int(t[1:]) == w]
    return ("u" if uns else "i") + str(w)


class Writer:
    def __init__(self, tree):
        self.out, self.funcs, self.cimports = [], {}, {}
        self.tree = tree

    def line(self, d, s, n=None):
        self.out.append(("    " * d + s, n.pos[1] if n is not None else 0))

    # ---- expressions: (text, type)
    def conv(self, e, t):
        """The value of e stored in a place of type t."""
        s, f = e
        if f == t or t == "object" or isinstance(t, tuple):
            return s
        if isint(t):
            if f == "double":
                return "__trunc__(%r, %s)" % (t, s)
            if isint(f):
                return "__wrap__(%r, %s)" % (t, s)
            return "__conv__(%r, %s)" % (t, s)
        if t == "double":
            return "__todouble__(%s)" % s
        raise Unknown("conversion of %s to %s" % (f, t))

    def ex(self, n):
        k = type(n).__name__
        f = getattr(self, "x_" + k, None)
        if f is None:
            bail(n)
        return f(n)

    def x_IntNode(self, n):
        return "(%s)" % n.value, "i64"

    def x_BoolNode(self, n):
        return str(bool(n.value)), "object"

    def x_NoneNode(self, n):
        return "None", "object"

    def x_NameNode(self, n):
        return n.name, self.vars.get(n.name, "object")

    def x_AttributeNode(self, n):
        return "%s.%s" % (self.ex(n.obj)[0], n.attribute), "object"

    def x_IndexNode(self, n):
        b, t = self.ex(n.base)
        ix = n.index.args if type(n.index).__name__ == "TupleNode" else [n.index]
        for i in ix:
            s, it = self.ex(i)
            b = "%s[%s]" % (b, s)
            if isinstance(t, tuple):
                t = t[1] if t[2] == 1 else ("mv", t[1], t[2] - 1)
            else:
                t = "object"
        return b, t

    def binary(self, n):
        (a, ta), (b, tb) = self.ex(n.operand1), self.ex(n.operand2)
        op = n.operator
        if "double" in (ta, tb):
            if op not in "+-*/":
                bail(n)
            return "__double__(%r, %s, %s)" % (op, self.conv((a, ta), "double"), self.conv((b, tb), "double")), "double"
        if isint(ta) and isint(tb):
            if op == "/":
                return "__divdouble__(%s, %s)" % (a, b), "double"
            t = common(ta, tb)
            if op in ("<<", ">>", "&", "|", "^", "**"):
                bail(n)
            return "__arith__(%r, (%s) %s (%s))" % (t, self.conv((a, ta), t), op, self.conv((b, tb), t)), t
        return "((%s) %s (%s))" % (a, op, b), "object"
    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_IntBinopNode = x_NumBinopNode = binary

    def x_UnaryMinusNode(self, n):
        s, t = self.ex(n.operand)
        if isint(t):
            return "__arith__(%r, -(%s))" % (common(t, t), s), common(t, t)
        if t == "object":
            return "(-(%s))" % s, t
        bail(n)

    def x_PrimaryCmpNode(self, n):
        if getattr(n, "cascade", None) is not None:
            bail(n)
        (a, ta), (b, tb) = self.ex(n.operand1), self.ex(n.operand2)
        if isint(ta) and isint(tb):
            t = common(ta, tb)
            a, b = self.conv((a, ta), t), self.conv((b, tb), t)
        elif "double" in (ta, tb):
            a, b = self.conv((a, ta), "double"), self.conv((b, tb), "double")
        return "((%s) %s (%s))" % (a, n.operator.replace("is_not", "is not").replace("not_in", "not in"), b), "object"

    def x_BoolBinopNode(self, n):
        return "((%s) %s (%s))" % (self.ex(n.operand1)[0], n.operator, self.ex(n.operand2)[0]), "object"

    def x_NotNode(self, n):
        return "(not (%s))" % self.ex(n.operand)[0], "object"

    def x_CondExprNode(self, n):
        (a, ta), (b, tb) = self.ex(n.true_val), self.ex(n.false_val)
        if ta != tb:
            bail(n)
        return "((%s) if (%s) else (%s))" % (a, self.ex(n.test)[0], b), ta

    def x_TypecastNode(self, n):
        t = ctype(n.base_type)
        return self.conv(self.ex(n.operand), t), t

    def x_SimpleCallNode(self, n):
        f = n.function
        name = f.name if type(f).__name__ == "NameNode" else None
        if name in self.cimports:
            if self.cimports[name] == ("libc.math", "floor") and len(n.args) == 1:
                return "__floor__(%s)" % self.conv(self.ex(n.args[0]), "double"), "double"
            bail(n)
        args = [self.ex(a) for a in n.args]
        if name == "len":
            return "len(%s)" % args[0][0], "i64"
        if name == "abs" and isint(args[0][1]):
            return "__arith__(%r, abs(%s))" % (args[0][1], args[0][0]), args[0][1]
        if name in self.funcs:
            ps, rt = self.funcs[name]
            return "%s(%s)" % (name, ", ".join(self.conv(a, t) for a, (_, t) in zip(args, ps))), rt
        return "%s(%s)" % (self.ex(f)[0], ", ".join(a[0] for a in args)), "object"

    def x_GeneralCallNode(self, n):
        args = [self.ex(a)[0] for a in n.positional_args.args]
        kw = ["%s=%s" % (i.key.value, self.ex(i.value)[0]) for i in n.keyword_args.key_value_pairs] if n.keyword_args else []
        return "%s(%s)" % (self.ex(n.function)[0], ", ".join(args + kw)), "object"

    # ---- statements
    def stat(self, n, d):
        k = type(n).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            bail(n)
        n0 = len(self.out)
        f(n, d)
        if len(self.out) == n0 and k != "StatListNode":
            self.line(d, "pass", n)

    def body(self, n, d):
        n0 = len(self.out)
        self.stat(n, d)
        if len(self.out) == n0:
            self.line(d, "pass", n)

    def s_StatListNode(self, n, d):
        for s in n.stats:
            self.stat(s, d)

    def s_PassStatNode(self, n, d):
        self.line(d, "pass", n)

    def s_BreakStatNode(self, n, d):
        self.line(d, "break", n)

    def s_ContinueStatNode(self, n, d):
        self.line(d, "continue", n)

    def s_ExprStatNode(self, n, d):
        self.line(d, self.ex(n.expr)[0], n)

    def s_ReturnStatNode(self, n, d):
        self.line(d, "return" if n.value is None else "return " + self.conv(self.ex(n.value), self.ret), n)

    def s_CVarDefNode(self, n, d):
        t = ctype(n.base_type)
        for c in n.declarators:
            if type(c).__name__ != "CNameDeclaratorNode":
                bail(c)
            if self.vars.get(c.name, t) != t:
                bail(c)
            if c.default is not None:
                self.line(d, "%s = %s" % (c.name, self.initial(c.default, t)), n)

    def initial(self, v, t):
        e = self.ex(v)
        return self.conv(e, t)

    def store(self, lhs, d, rhs, n):
        s, t = self.ex(lhs)
        self.line(d, "%s = %s" % (s, self.conv(rhs, t)), n)

    def s_SingleAssignmentNode(self, n, d):
        if type(n.rhs).__name__ == "ImportNode":
            return
        self.store(n.lhs, d, self.ex(n.rhs), n)

    def s_CascadedAssignmentNode(self, n, d):
        for l in n.lhs_list:
            self.store(l, d, self.ex(n.rhs), n)

    def s_InPlaceAssignmentNode(self, n, d):
        class B:
            operator, operand1, operand2, pos = n.operator, n.lhs, n.rhs, n.pos
        self.store(n.lhs, d, self.binary(B), n)

    def s_ForInStatNode(self, n, d):
        if n.else_clause is not None:
            bail(n)
        it = n.iterator.sequence
        if not (type(it).__name__ == "SimpleCallNode" and getattr(it.function, "name", "") == "range"):
            bail(n)
        args = [self.ex(a) for a in it.args]
        v = n.target.name
        if v not in self.vars:
            self.vars[v] = "i64" if all(isint(t) for _, t in args) else "object"
        if self.vars[v] != "i64" and self.vars[v] != "object":
            bail(n)
        self.line(d, "for %s in range(%s):" % (v, ", ".join(self.conv(a, self.vars[v]) for a in args)), n)
        self.body(n.body, d + 1)

    def s_WhileStatNode(self, n, d):
        if n.else_clause is not None:
            bail(n)
        self.line(d, "while %s:" % self.ex(n.condition)[0], n)
        self.body(n.body, d + 1)

    def s_IfStatNode(self, n, d):
        w = "if"
        for c in n.if_clauses:
            self.line(d, "%s %s:" % (w, self.ex(c.condition)[0]), c)
            self.body(c.body, d + 1)
            w = "elif"
        if n.else_clause is not None:
            self.line(d, "else:", n)
            self.body(n.else_clause, d + 1)

    def s_WithStatNode(self, n, d):
        m = n.manager
        if type(m).__name__ != "SimpleCallNode" or type(m.function).__name__ != "AttributeNode" or getattr(m.function.obj, "name", "") != "cython" or m.function.attribute not in ("boundscheck", "wraparound"):
            bail(n)
        if m.function.attribute == "wraparound":
            bail(n)
        self.stat(n.body, d)

    def s_CImportStatNode(self, n, d):
        pass

    def s_FromCImportStatNode(self, n, d):
        pass

    # ---- functions
    def header(self, n):
        if type(n).__name__ == "DefNode":
            name, args, ret = n.name, n.args, "object"
        else:
            name, args, ret = n.declarator.base.name, n.declarator.args, ctype(n.base_type)
        ps = []
        for a in args:
            if a.default is not None:
                bail(a)
            an = a.declarator.name
            t = a.base_type
            if type(t).__name__ == "CSimpleBaseTypeNode" and not an:
                an, t = t.name, None
            ps.append((an, ctype(t) if t is not None else "object"))
        for dec in n.decorators or []:
            f = dec.decorator
            if type(f).__name__ != "SimpleCallNode" or getattr(f.function, "attribute", "") not in ("boundscheck",):
                bail(dec)
        return name, ps, ret

    def func(self, n):
        name, ps, self.ret = self.header(n)
        self.vars = dict(ps)
        self.collect(n.body)
        self.line(0, "def %s(%s):" % (name, ", ".join(p for p, _ in ps)), n)
        for p, t in ps:
            if t != "object":
                self.line(1, "__given__(%s, %r)" % (p, t), n)
        self.body(n.body, 1)

    def collect(self, n):
        if type(n).__name__ == "CVarDefNode":
            for c in n.declarators:
                self.vars[c.name] = ctype(n.base_type)
        for a in n.child_attrs or []:
            c = getattr(n, a, None)
            for x in c if isinstance(c, list) else [c]:
                if hasattr(x, "child_attrs"):
                    self.collect(x)

    def run(self):
        fs = []
        todo = list(self.tree.body.stats)
        while todo:
            n = todo.pop(0)
            k = type(n).__name__
            if k == "StatListNode":
                todo = list(n.stats) + todo
            elif k == "FromCImportStatNode":
                for x in n.imported_names:
                    self.cimports[x[2] or x[1]] = (str(n.module_name), x[1])
            elif k in ("DefNode", "CFuncDefNode"):
                fs.append(n)
            elif k == "SingleAssignmentNode" and type(n.rhs).__name__ == "ImportNode":
                pass
            elif k in ("ExprStatNode", "PassStatNode", "CImportStatNode"):
                pass
            else:
                bail(n)
        for n in fs:
            name, ps, ret = self.header(n)
            self.funcs[name] = (ps, ret)
        for n in fs:
            self.func(n)


if __name__ == "__main__":
    w = Writer(parse_from_strings("m", open(sys.argv[1]).read()))
    w.run()
    import json
    print(json.dumps({"text": "import numpy as np\n" + "\n".join(s for s, _ in w.out) + "\n", "lines": [1] + [l for _, l in w.out]}))
