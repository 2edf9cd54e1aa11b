"""Symbolic execution of Python functions against their contracts: generates the proof obligations.

Each path is executed from the start of the function with a list of branch decisions, so the interpreter is a plain
recursive evaluator; loops are cut by their invariants and calls by the callee's contract.
"""
import ast
import contextlib
import hashlib
import re
import z3
from . import front, cops
from .core import *
from .spec import Spec, NS, Heap, C, raw

MAXPATHS = 4000


class PyRaise(Exception):
    def __init__(self, exc, line):
        self.exc, self.line = exc, line


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    pass


class FuncVal:
    """A function value: code plus the frame it closes over."""

    def __init__(self, func, frame=None, bound=None, node=None):
        self.func, self.frame, self.bound = func, frame, bound


str_concat = fn("str_concat", usort("Str"), usort("Str"), usort("Str"))
str_map = lambda name: fn("str_" + name, usort("Str"), usort("Str"))
str_test = lambda name: fn("str_" + name, usort("Str"), usort("Str"), z3.BoolSort())
str_slice = lambda lo, hi: str_map("slice_%s_%s" % tuple("" if x is None else str(x).replace("-", "m") for x in (lo, hi)))


class LambdaVal:
    def __init__(self, node, mod, frame):
        self.node, self.mod, self.frame = node, mod, frame


class ClassVal:
    def __init__(self, cls):
        self.cls = cls


class Builtin:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv


class ModuleVal:
    def __init__(self, name):
        self.name = name


class GenVal:
    """A pending call of a generator under contract."""

    def __init__(self, call):
        self.call = call


class IterDesc:
    """A finite iteration: n elements, elem(i) -> V; guard() -> obligation terms that the iterated thing did not change."""

    def __init__(self, n, elem, seq=None, unchanged=None, facts=()):
        self.n, self.elem, self.seq, self.unchanged, self.facts = n, elem, seq, unchanged, list(facts)


class Frame:
    def __init__(self, func, parent=None):
        self.func, self.parent, self.vars = func, parent, {}

    def find(self, n):
        f = self
        while f is not None:
            if n in f.vars:
                return f
            f = f.parent
        return None


class Obligation:
    def __init__(self, name, facts, goal, line, kind="proof"):
        self.name, self.facts, self.goal, self.line, self.kind = name, facts, goal, line, kind


def has_quant(e, seen=None):
    seen = set() if seen is None else seen
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


class Exec:
    def __init__(self, reg, spec, view, func):
        self.reg, self.spec, self.view, self.func = reg, spec, view, func
        self.obls, self.seen = [], set()
        self.sym = {}
        self.loopmods = {}
        self.dry_cache = {}
        self.notes = set()
        self.used_specs = set()
        self.seq_types = set()

    # ------------------------------------------------------------ driver
    def run(self):
        todo = [[]]
        n = 0
        self.exits = 0
        while todo:
            prefix = todo.pop()
            n += 1
            if n > MAXPATHS:
                raise Unsupported("more than %d paths in %s" % (MAXPATHS, self.spec.id))
            self.prefix, self.taken, self.alts = prefix, [], todo
            self.dry = 0
            self.merging = 0
            self.heap, self.boxes, self.facts, self.qf = {}, {}, [], []
            self.epochs = {}
            self.writes = None
            self._boxid = 0
            self.shared = set()
            self.sub_id = 0
            self.line = self.func.node.lineno
            self.nested = []
            reset_names()
            try:
                self.exec_top()
            except PathEnd:
                pass
        if self.exits == 0 and not self.spec.raises:
            self.obls.append(Obligation(self.tag() + " some path returns", [], z3.BoolVal(False), self.line))
        return self.obls

    def tag(self):
        return "%s:%s%s" % (self.spec.file, self.spec.qual, "[%s]" % self.view if self.view else "")

    def fact(self, f):
        if z3.is_true(f):
            return
        self.facts.append(f)
        if not has_quant(f):
            self.qf.append(f)

    def prove(self, name, goal, line=None):
        """An obligation; afterwards it may be assumed."""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        line = line or self.line
        if self.dry == 0 and len(self.taken) >= len(self.prefix) and not z3.is_true(goal):
            nm = "%s %s @L%d" % (self.tag(), name, line)
            if self.merging:
                nm += " (inner)"
            self.obls.append(Obligation(nm, list(self.facts), goal, line))
        self.fact(goal)

    def cover(self, name):
        if self.dry == 0 and not self.merging and len(self.taken) >= len(self.prefix):
            self.obls.append(Obligation("%s cover: %s" % (self.tag(), name), list(self.facts), z3.BoolVal(False), self.line, "cover"))

    def feasible(self, cond):
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*literal_axioms())
        s.add(*self.qf)
        s.add(cond)
        return s.check() != z3.unsat

    def branch(self, cond):
        """Fork on cond; returns the Python truth value taken on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
        else:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.alts.append(self.taken + [False])
                d = True
                self.taken = self.taken + [d]
                self.prefix = list(self.taken)
                self.fact(cond)
                return d
            self.fact(cond if t else z3.Not(cond))
            d = t
            self.taken = self.taken + [d]
            self.prefix = list(self.taken)
            return d
        self.taken = self.taken + [d]
        self.fact(cond if d else z3.Not(cond))
        return d

    def choose(self):
        """Fork without a condition."""
        return self.branch(const("choice", z3.BoolSort()))

    # ------------------------------------------------------------ state copies
    def snap(self):
        return (dict(self.heap), dict(self.boxes), len(self.facts), len(self.qf), dict(self.epochs), self.line)

    def restore(self, s, frames=()):
        self.heap, self.boxes = dict(s[0]), dict(s[1])
        del self.facts[s[2]:]
        del self.qf[s[3]:]
        self.epochs = dict(s[4])
        self.line = s[5]

    def frames_of(self, fr):
        out = []
        while fr is not None:
            out.append(fr)
            fr = fr.parent
        return out

    def sub_paths(self, fn, frame, replay=False):
        """All paths of fn from the current state: (condition terms, extra facts, outcome); the state is restored."""
        saved = (self.prefix, self.taken, self.alts)
        sn = self.snap()
        fsaved = [(f, dict(f.vars)) for f in self.frames_of(frame)]
        todo, res = [[]], []
        outer, self._subs = self.sub_id, getattr(self, "_subs", 0) + 1
        self.sub_id = self._subs
        base = self._boxid
        while todo:
            if replay:  # the paths have nothing in common but what was there before
                self._boxid = base
                self.shared = {b for b in self.shared if b <= base}
            self.prefix, self.taken, self.alts = todo.pop(), [], todo
            n0 = len(self.facts)
            try:
                out = ("ok", fn())
            except PathEnd:
                out = ("end", None)
            except PyRaise as e:
                out = ("raise", e)
            except ReturnEx as e:
                out = ("return", e.v)
            except BreakEx:
                out = ("break", None)
            except ContinueEx:
                out = ("continue", None)
            res.append((self.facts[n0:], out, dict(self.heap), dict(self.boxes)))
            self.restore(sn)
            for f, vs in fsaved:
                f.vars.clear()
                f.vars.update(vs)
            if len(res) > 500:
                raise Unsupported("too many inner paths at line %d" % self.line)
        self.prefix, self.taken, self.alts = saved
        self.sub_id = outer
        if replay:
            self._boxid = base
            self.shared = {b for b in self.shared if b <= base}
        return res

    def merge_eval(self, fn, frame, what="expression"):
        """Evaluates a pure expression over all its paths and merges the values with if-then-else."""
        self.merging += 1
        h0, b0 = dict(self.heap), dict(self.boxes)
        try:
            paths = self.sub_paths(fn, frame)
        finally:
            self.merging -= 1
        vals = []
        for facts, out, heap, boxes in paths:
            if out[0] == "end":
                continue
            cond = z3.And(*facts) if facts else z3.BoolVal(True)
            if out[0] == "raise":
                self.prove("no %s (in %s)" % (out[1].exc, what), z3.Not(cond), out[1].line)
                continue
            if any(heap.get(k) is not h0.get(k) and any(not a.eq(b) for a, b in zip(heap[k], h0.get(k, []))) for k in h0):
                raise Unsupported("side effect inside %s at line %d" % (what, self.line))
            v = out[1]
            if isinstance(v, V) and v.t.k in CONTAINER and isinstance(v.x, Loc):
                v2 = None
                if v.x.root[0] == "box" and v.x.root[1] not in b0:
                    c = boxes[v.x.root[1]]
                    if isinstance(c, V):
                        v2 = c
                v = v2 or v
            vals.append((facts, cond, v))
        if not vals:
            raise PathEnd()
        if len(vals) == 1:
            for f in vals[0][0]:
                self.fact(f)
            return vals[0][2]
        r = vals[-1][2]
        for facts, cond, v in reversed(vals[:-1]):
            r = self.ite(cond, v, r)
        self.fact(z3.Or(*[c for _, c, _ in vals]))
        return r

    def ite(self, c, a, b):
        if a.t == b.t or (a.t.k in ("int", "bool") and b.t.k in ("int", "bool") and False):
            if a.t.k in CONTAINER:
                a, b = self.read(a), self.read(b)
            if a.t.k in ("py", "none"):
                if a.x is b.x or a.x == b.x:
                    return a
                raise Unsupported("merging different Python objects at line %d" % self.line)
            ta, tb = terms_of(a), terms_of(b)
            ts = [z3.If(c, x, y) for x, y in zip(ta, tb)]
            if a.t.k == "ref":
                ts = [self.named(x) for x in ts]
            r = rebuild(a, ts)
            r.nullable = getattr(a, "nullable", False) or getattr(b, "nullable", False)
            return r
        if a.t.k == "ref" and b.t == NONE:
            r = V(a.t, z3.If(c, a.x, null(a.t.a[0])))
            r.nullable = True
            return r
        if b.t.k == "ref" and a.t == NONE:
            r = V(b.t, z3.If(c, null(b.t.a[0]), b.x))
            r.nullable = True
            return r
        raise Unsupported("merging %s with %s at line %d" % (a.t, b.t, self.line))

    def named(self, x):
        """A constant equal to the term: conditional terms cannot occur in patterns."""
        k = const("ite", x.sort())
        self.fact(k == x)
        return k

    # ------------------------------------------------------------ heap, boxes, places
    def comps(self, t, obj_sort):
        if t.k == "map":
            return [z3.ArraySort(obj_sort, z3.ArraySort(keysort(t.a[0]), z3.BoolSort())), z3.ArraySort(obj_sort, z3.ArraySort(keysort(t.a[0]), sort_of(t.a[1])))]
        if t.k == "set":
            return [z3.ArraySort(obj_sort, z3.ArraySort(keysort(t.a[0]), z3.BoolSort()))]
        return [z3.ArraySort(obj_sort, sort_of(t))]

    def fresh_field(self, key, base):
        if key.startswith("alive."):
            return [z3.Const(fresh_name(base), z3.ArraySort(usort(key[6:]), z3.BoolSort()))]
        cls = key.split(".")[0]
        return [z3.Const(fresh_name(base + str(i)), s) for i, s in enumerate(self.comps(self.reg.fields[key], usort(cls)))]

    def hget(self, key):
        if key not in self.heap:
            raise Unsupported("no heap component %s" % key)
        return self.heap[key]

    def hset(self, key, comps):
        self.heap[key] = comps
        if self.writes is not None:
            self.writes.add(("heap", key))

    def read_field(self, key, obj):
        t = self.reg.fields[key]
        a = self.hget(key)
        if t.k in ("map", "set"):
            return V(t, MapC(*[z3.Select(x, obj) for x in a]))
        return unpack(t, z3.Select(a[0], obj))

    def write_field(self, key, obj, v):
        t = self.reg.fields[key]
        a = self.hget(key)
        v = self.coerce(v, t)
        if t.k in ("map", "set"):
            new = [z3.Store(x, obj, y) for x, y in zip(a, [v.x.dom, v.x.val])]
        else:
            new = [z3.Store(a[0], obj, pack(v))]
        self.hset(key, new)

    def new_box(self, content):
        """A fresh mutable container with the given pure content."""
        b = self._boxid = getattr(self, "_boxid", 0) + 1
        self.boxes[b] = content
        return V(content.t, Loc(("box", b)))

    def norm(self, v):
        while v.x.root[0] == "box":
            c = self.boxes[v.x.root[1]]
            if isinstance(c, Loc):
                v = V(v.t, Loc(c.root, c.path + v.x.path))
            else:
                break
        return v

    def read(self, v):
        """Pure content of a container value (identity on everything else)."""
        if not isinstance(v.x, Loc):
            return v
        v = self.norm(v)
        loc = v.x
        if loc.root[0] == "box":
            c = self.boxes[loc.root[1]]
        else:
            _, key, obj, epoch = loc.root
            if self.epochs.get(key, 0) != epoch:
                raise Unsupported("alias of %s kept across an assignment to it (line %d)" % (key, self.line))
            c = self.read_field(key, obj)
        for k in loc.path:
            c = self.sub(c, k)
        return c

    def sub(self, c, k):
        if c.t.k == "seq":
            return unpack(c.t.a[0], SeqTheory(c.t.a[0]).at(c.x, k))
        return unpack(c.t.a[1], c.x.get(k))

    def sub_upd(self, c, k, new):
        if c.t.k == "seq":
            return V(c.t, SeqTheory(c.t.a[0]).upd(c.x, k, pack(new)))
        return V(c.t, MapC(c.x.dom, z3.Store(c.x.val, k, pack(new)), c.x.obj))

    def write(self, v, new):
        if not isinstance(v.x, Loc):
            raise Unsupported("write to an immutable container at line %d" % self.line)
        v = self.norm(v)
        loc = v.x
        new = self.read(new)

        def upd(c, path):
            if not path:
                return new
            return self.sub_upd(c, path[0], upd(self.sub(c, path[0]), path[1:]))
        if loc.root[0] == "box":
            if loc.root[1] in getattr(self, "shared", ()):
                raise Unsupported("change of a container that is an element of another one (line %d)" % self.line)
            self.boxes[loc.root[1]] = upd(self.boxes[loc.root[1]], list(loc.path))
            if self.writes is not None:
                self.writes.add(("box", loc.root[1]))
        else:
            _, key, obj, epoch = loc.root
            if self.epochs.get(key, 0) != epoch:
                raise Unsupported("alias of %s kept across an assignment to it (line %d)" % (key, self.line))
            self.write_field(key, obj, upd(self.read_field(key, obj), list(loc.path)))

    def coerce(self, v, t):
        """v as a pure value of type t."""
        if v.t == NONE:
            if t.k == "ref":
                r = V(t, null(t.a[0]))
                r.nullable = True
                return r
            if t.k == "opt":
                return V(t, (z3.BoolVal(True), fresh("none", t.a[0])))
            if t == VAL:
                return V(VAL, z3.Const("val_None", usort("Val")))
        if t.k == "opt" and v.t.k == "opt" and v.t != t:
            if not self.feasible(z3.Not(v.x[0])):
                return self.coerce(NONEV, t)
            if not self.feasible(v.x[0]):
                return V(t, (z3.BoolVal(False), self.coerce(v.x[1], t.a[0])))
        if t.k == "opt" and v.t != t:
            return V(t, (z3.BoolVal(False), self.coerce(v, t.a[0])))
        if v.t.k == "opt" and v.t.a[0] == t:
            self.prove("the value is not None", z3.Not(v.x[0]))
            return v.x[1]
        v = self.read(v)
        if v.t == t:
            return v
        h = self.reg.externs.get("coerce:" + mangle(t))
        if h is not None:
            r = h(self, v)
            if r is not None:
                return r
        if t == REAL and v.t == INT:
            return V(REAL, z3.ToReal(v.x))
        if t == INT and v.t == BOOL:
            return V(INT, z3.If(v.x, z3.IntVal(1), z3.IntVal(0)))
        if v.t == T("emptyseq"):
            if t.k == "seq":
                return empty_content(t)
        if v.t == T("emptymap") and t.k in ("map", "set"):
            return empty_content(t)
        if t.k == "seq" and v.t.k == "tup":
            th = SeqTheory(t.a[0])
            s = th.empty
            for x in v.x:
                s = th.app(s, pack(self.coerce(x, t.a[0])))
            return V(t, s)
        if t.k == "seq" and v.t.k == "seq" and t.a[0] == Opt(v.t.a[0]):
            src, dst = SeqTheory(v.t.a[0]), SeqTheory(t.a[0])
            r, i, x, o = const("optional", t), z3.Int("i!coerce"), z3.Const("x!coerce", sort_of(v.t.a[0])), z3.Const("o!coerce", sort_of(t.a[0]))
            mk, isn, some = sort_of(t.a[0]).constructor(0), sort_of(t.a[0]).accessor(0, 0), sort_of(t.a[0]).accessor(0, 1)
            self.seq_types |= {t.a[0], v.t.a[0]}
            self.fact(dst.len(r) == src.len(v.x))
            self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < src.len(v.x)), dst.at(r, i) == mk(False, src.at(v.x, i))), patterns=[dst.at(r, i)]))
            self.fact(z3.ForAll([x], z3.Implies(src.mem(v.x, x), dst.mem(r, mk(False, x))), patterns=[src.mem(v.x, x)]))
            self.fact(z3.ForAll([o], z3.Implies(dst.mem(r, o), z3.And(z3.Not(isn(o)), src.mem(v.x, some(o)))), patterns=[dst.mem(r, o)]))
            return V(t, r)
        if t == Seq(SNOC) and v.t.k == "seq" and v.t.a[0].k == "tup":
            # elementwise: a sequence of fixed-size tuples seen as a sequence of tuples
            src, dst = SeqTheory(v.t.a[0]), SeqTheory(SNOC)
            r, i = const("paths", t), z3.Int("i!coerce")
            self.fact(dst.len(r) == src.len(v.x))
            elt = self.coerce(unpack(v.t.a[0], src.at(v.x, i)), SNOC).x
            self.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < src.len(v.x)), dst.at(r, i) == elt), patterns=[dst.at(r, i)]))
            return V(t, r)
        if t == VAL and v.t in (STR, INT, REAL, BOOL):
            return V(VAL, fn("val_of_" + v.t.k, sort_of(v.t), usort("Val"))(v.x))
        if t.k == "snoc" and v.t.k == "tup":
            p = Path.nil
            for x in v.x:
                p = Path.snoc(p, x.x)
            return V(t, p)
        if t.k == "tup" and v.t.k == "tup" and len(t.a) == len(v.x):
            return V(t, [self.coerce(x, y) for x, y in zip(v.x, t.a)])
        if t.k == "set" and v.t == Set(Ref("Node")) and t.a[0].k == "id" and len(t.a[0].a) == 2:
            fam, q, x = self.spec.families[t.a[0].a[1]], z3.Int("q!fam"), z3.Const("x!fam", NODE)
            nid, c = self.hget("Node.nid")[0], self.ctx()
            self.prove("the members are %s nodes" % t.a[0].a[1], z3.ForAll([q], z3.Implies(v.x.has(q), z3.And(fam(c, v.x.key(q)), nid[v.x.key(q)] == q)), patterns=[v.x.has(q)]))
            r = fresh("members", t)
            self.fact(z3.ForAll([x], r.x.has(x) == z3.And(v.x.has(nid[x]), v.x.key(nid[x]) == x), patterns=[r.x.has(x)]))
            self.fact(z3.ForAll([q], z3.Implies(v.x.has(q), r.x.has(v.x.key(q))), patterns=[v.x.has(q)]))
            return r
        raise Unsupported("expected %s, found %s at line %d" % (t, v.t, self.line))

    # ------------------------------------------------------------ top level of one function
    def exec_top(self):
        spec = self.spec
        for key in self.reg.fields:
            self.heap[key] = self.fresh_field(key, key + "_0_")
        for cls in self.reg.classes:
            self.heap["alive." + cls] = self.fresh_field("alive." + cls, "alive_" + cls)
            self.fact(z3.Not(z3.Select(self.heap["alive." + cls][0], null(cls))))
        self.h0 = dict(self.heap)
        parent = None
        if spec.captures:
            parent = Frame(None)
            for n, t in spec.captures.items():
                parent.vars[n] = self.param(n, t)
        else:
            parent = None
        if "." in spec.qual and parent is None and self.func.cls is None:
            parent = Frame(None)
        fr = Frame(self.func, parent)
        self.frame = fr
        args = self.func.node.args
        names = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        if args.vararg:
            names.append(args.vararg.arg)
        if args.kwarg:
            names.append(args.kwarg.arg)
        over = spec.views[self.view]
        for n in names:
            if n in over and not isinstance(over[n], T):
                fr.vars[n] = NONEV if over[n] is None else (over[n] if isinstance(over[n], V) else self.pyconst(over[n]))
                continue
            t = over.get(n) or spec.params.get(n)
            if t is None:
                raise Unsupported("parameter %s of %s is not in the contract" % (n, spec.id))
            fr.vars[n] = self.param(n, t, n in spec.nullable)
        for n in spec.params:
            if n not in names:
                raise Unsupported("%s has no parameter %s any more" % (spec.id, n))
        # self-recursive captures (nested function calling itself) resolve through the closure frame
        if parent is not None:
            for q, f in self.func.mod.by_qual.items():
                if q.rsplit(".", 1)[0] == spec.qual.rsplit(".", 1)[0] and "." in q and f.cls is self.func.cls and q.count(".") == spec.qual.count("."):
                    if isinstance(f.node, ast.FunctionDef) and q in self.func.mod.by_qual and q.rsplit(".", 1)[0] in self.func.mod.by_qual:
                        parent.vars.setdefault(q.rsplit(".", 1)[1], pyv(FuncVal(f, parent)))
        self.entry_params = dict(fr.vars)
        self.entry_caps = {n: parent.vars[n] for n in spec.captures} if parent is not None else {}
        self.entry_vals = {n: self.read(v) if v.t.k in CONTAINER else v for n, v in fr.vars.items()}
        self.entry_capvals = {n: self.read(v) if v.t.k in CONTAINER else v for n, v in self.entry_caps.items()}
        self.ghostp = {n: fresh("g_" + n, t) for n, t in spec.ghost_params.items()}
        self.gen = isinstance(spec.res, tuple)
        if self.gen != self.func.is_generator:
            raise Unsupported("%s: generator expected: %s, found: %s" % (spec.id, self.gen, self.func.is_generator))
        if self.gen:
            self.out0 = const("out0", Seq(spec.res[1]))
            self.out = self.out0
        c = self.ctx()
        for f in self.reg.axioms:
            for a in f(c):
                self.fact(a)
        for n, r in spec.requires:
            self.fact(self.clause(r, c))
        if spec.entry:
            for a in spec.entry(c):
                self.fact(a)
        self.cover("entry")
        raised = None
        try:
            self.block(self.func.node.body, fr)
            res = NONEV
        except ReturnEx as e:
            res = e.v
        except PyRaise as e:
            raised = e
        call = getattr(spec, "call_result", None)
        try:
            if call is not None and not raised:
                # the result is a function: it is applied to arguments of the contract, in whatever state
                res = self.call_value(res, call(self, self.ctx()), {}, None, fr)
        except PyRaise as e:
            raised = e
        if raised is not None:
            e = raised
            self.line = e.line
            cond = spec.raises.get(e.exc)
            if e.exc in spec.may_raise:
                return
            if cond is None:
                self.prove("no %s" % e.exc, False, e.line)
            else:
                self.prove("raises %s only as stated" % e.exc, self.clause(cond, self.ctx()), e.line)
            return
        self.exits += 1
        self.check_post(res)

    def check_post(self, res):
        spec = self.spec
        c = self.ctx()
        for exc, cond in spec.raises.items():
            self.prove("returns only if %s is not due" % exc, z3.Not(self.clause(cond, c)))
        ghosts = {}
        for n, (t, f) in spec.ghost.items():
            ghosts[n] = self.coerce(f(self), t)
        if not self.gen:
            rt = spec.views[self.view].get("return", spec.res)
            if rt == NONE:
                if res.t != NONE:
                    raise Unsupported("%s returns a value" % spec.id)
            else:
                res = self.coerce(res, rt)
        c = self.ctx(res=res, ghosts=ghosts)
        self.cover("return")
        if getattr(spec, "axiom_hints", None):
            self.fact(self.clause(spec.axiom_hints, c))
        if spec.hints:
            for hname, h in spec.hints:
                self.prove("lemma " + hname, self.clause(h, c))
        for n, e in spec.ensures:
            self.prove("ensures " + n, self.clause(e, c))
        # frame: heap components the contract does not list are unchanged
        mods = set(self.mods_of(spec))
        for key in self.heap:
            if key in mods or (key.startswith("alive.") and "alloc:" + key[6:] in mods):
                continue
            for a, b in zip(self.heap[key], self.h0[key]):
                if not a.eq(b):
                    self.prove("frame: %s unchanged" % key, a == b)
        for n, v in self.entry_params.items():
            if v.t.k in CONTAINER and "param:" + n not in mods and isinstance(v.x, Loc):
                self.same_content("frame: argument %s unchanged" % n, self.entry_vals[n], self.read(v))
        for n, v in self.entry_caps.items():
            if v.t.k in CONTAINER and "cap:" + n not in mods:
                self.same_content("frame: captured %s unchanged" % n, self.entry_capvals[n], self.read(v))

    def mods_of(self, spec):
        return spec.modifies

    def same_content(self, name, a, b):
        for x, y in zip(terms_of(a), terms_of(b)):
            if not x.eq(y):
                self.prove(name, x == y)

    def param(self, n, t, nullable=False):
        v = fresh(n, t)
        if t.k in CONTAINER:
            return self.new_box(v)
        if t.k == "ref" and t.a[0] in self.reg.classes:
            if nullable:
                v.nullable = True
                self.fact(z3.Or(v.x == null(t.a[0]), z3.Select(self.heap["alive." + t.a[0]][0], v.x)))
            else:
                self.fact(v.x != null(t.a[0]))
                self.fact(z3.Select(self.heap["alive." + t.a[0]][0], v.x))
        if t.k == "tup":
            v = V(t, [self.param("%s.%d" % (n, i), x) for i, x in enumerate(t.a)])
        return v

    def clause(self, f, c):
        r = f(c)
        if isinstance(r, (list, tuple)):
            r = z3.And(*r) if r else z3.BoolVal(True)
        if isinstance(r, bool):
            r = z3.BoolVal(r)
        return r

    def ctx(self, res=None, ghosts=None):
        """Context of the clauses of the function being verified."""
        c = C()
        spec = self.spec
        c.ex, c.view = self, self.view
        c.p = NS(lambda n: raw(self.entry_vals[n]))
        c.o = NS(lambda n: raw(self.read(self.entry_params[n])))
        c.cap = NS(lambda n: raw(self.entry_capvals[n]))
        c.capo = NS(lambda n: raw(self.read(self.entry_caps[n])))
        c.h0, c.h = Heap(self.reg, self.h0), Heap(self.reg, self.heap)
        c.gp = NS(lambda n: raw(self.ghostp[n]))
        c.given = lambda n: self.entry_vals[n].t != NONE
        c.pv = lambda n: self.entry_vals[n]
        if self.gen:
            c.out0, c.out = self.out0, self.out
        if res is not None:
            c.res, c.resv = raw(self.read(res)) if res.t != NONE else None, res
        c.g = NS(lambda n: raw((ghosts or {})[n]))
        fr = self.frame
        c.v = NS(lambda n: self.local_raw(fr, n))
        c.has = lambda n: n in fr.vars
        return c

    def local_raw(self, fr, n):
        f = fr.find(n)
        if f is None:
            raise Unsupported("contract mentions local variable %s, which does not exist at line %d" % (n, self.line))
        v = f.vars[n]
        if v.t == UNDEF:
            raise Unsupported("local variable %s has no known value at line %d" % (n, self.line))
        if (v.t == T("emptyseq") and not isinstance(v.x, Loc)) or (isinstance(v.x, Loc) and self.read(v).t == T("emptyseq")):
            return ("emptyseq",)
        return raw(self.read(v))

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.line = getattr(s, "lineno", self.line)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %d" % (type(s).__name__, self.line))
        m(s, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Global(self, s, fr):
        raise Unsupported("global at line %d" % self.line)

    def st_Import(self, s, fr):
        for a in s.names:
            fr.vars[(a.asname or a.name).split(".")[0]] = pyv(ModuleVal(a.name))

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, fr) if s.value.value else NONEV
            self.do_yield(v, fr)
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.eval(s.value.value, fr)
            self.delegate(v, fr)
            return
        self.eval(s.value, fr)

    def do_yield(self, v, fr):
        if not getattr(self, "gen", False) or fr is not self.frame:
            raise Unsupported("yield at line %d" % self.line)
        th = SeqTheory(self.spec.res[1])
        if self.spec.yield_as:
            term = self.spec.yield_as(self, v)
        else:
            term = pack(self.coerce(v, self.spec.res[1]))
        self.out = th.app(self.out, term)
        if self.writes is not None:
            self.writes.add(("out",))

    def st_Return(self, s, fr):
        v = self.eval(s.value, fr) if s.value is not None else NONEV
        raise ReturnEx(v)

    def st_Break(self, s, fr):
        raise BreakEx()

    def st_Continue(self, s, fr):
        raise ContinueEx()

    def st_Raise(self, s, fr):
        e = s.exc
        if e is None:
            if self.nested:
                raise PyRaise(self.nested[-1], self.line)
            raise Unsupported("bare raise at line %d" % self.line)
        n = e.func if isinstance(e, ast.Call) else e
        raise PyRaise(ast.unparse(n).split(".")[-1], self.line)

    def st_Assert(self, s, fr):
        v = self.merge_eval(lambda: V(BOOL, self.truth(self.eval(s.test, fr))), fr, "assert")
        if "AssertionError" in self.spec.raises:
            if not self.branch(v.x):
                raise PyRaise("AssertionError", s.lineno)
            return
        self.prove("assert holds", v.x)

    def st_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_FunctionDef(self, s, fr):
        q = self.qual_of(fr) + "." + s.name
        f = front.Func(fr.func.mod, q, s, fr.func.cls)
        fr.vars[s.name] = pyv(FuncVal(f, fr))

    def qual_of(self, fr):
        return fr.func.qual

    def st_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type else ["Exception"]
                if e.exc in names or "Exception" in names or "BaseException" in names or (e.exc in ("KeyError", "IndexError") and "LookupError" in names):
                    self.nested.append(e.exc)
                    if h.name:
                        fr.vars[h.name] = pyv(("exc", e.exc))
                    self.block(h.body, fr)
                    self.nested.pop()
                    break
            else:
                raise
        else:
            self.block(s.orelse, fr)
        if s.finalbody:
            self.block(s.finalbody, fr)

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                cv = self.read(c)
                if cv.t.k == "map":
                    kt, _ = self.key_of(cv, k)
                    if not self.branch(cv.x.has(kt)):
                        raise PyRaise("KeyError", self.line)
                    self.write(c, V(cv.t, MapC(z3.Store(cv.x.dom, kt, z3.BoolVal(False)), cv.x.val, cv.x.obj)))
                elif cv.t.k == "seq":
                    raise Unsupported("del of a list element at line %d" % self.line)
                else:
                    raise Unsupported("del at line %d" % self.line)
            else:
                raise Unsupported("del at line %d" % self.line)

    def st_Assign(self, s, fr):
        old = getattr(self, "wanted", None)
        self.wanted = self.spec.types.get(s.targets[0].id) if isinstance(s.targets[0], ast.Name) and fr.func is self.func else None
        try:
            v = self.eval(s.value, fr)
        finally:
            self.wanted = old
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        cur = self.eval(s.target, fr)
        v = self.eval(s.value, fr)
        if cur.t.k == "seq" and isinstance(s.op, ast.Add):
            self.seq_extend(cur, v)
            return
        if cur.t.k == "set" and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and isinstance(cur.x, Loc):
            self.write(cur, self.binop(s.op, cur, v, fr))
            return
        self.assign(s.target, self.binop(s.op, cur, v, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            target = fr
            if t.id in getattr(fr, "nonlocals", ()):
                target = fr.parent.find(t.id)
            if v.t == T("emptyseq") and fr.func is self.func and t.id in self.spec.types and isinstance(v.x, Loc):
                self.retype(v, empty_content(self.spec.types[t.id]))
                v = V(self.spec.types[t.id], v.x)
            if v.t == T("emptymap") and fr.func is self.func and t.id in self.spec.types and isinstance(v.x, Loc):
                self.retype(v, empty_content(self.spec.types[t.id]))
                v = V(self.spec.types[t.id], v.x)
            if fr.func is self.func and v.t in (INT, REAL) and t.id in self.spec.types and self.spec.types[t.id].k == "sort":
                v = self.coerce(v, self.spec.types[t.id])
            target.vars[t.id] = v
            if self.writes is not None:
                self.writes.add(("var", id(target), t.id))
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.read(v) if v.t.k in CONTAINER else v
            if v.t.k == "tup":
                if len(v.x) != len(t.elts):
                    raise PyRaise("ValueError", self.line)
                for a, b in zip(t.elts, v.x):
                    self.assign(a, b, fr)
                return
            if v.t.k == "seq":
                th = SeqTheory(v.t.a[0])
                if not self.branch(th.len(v.x) == len(t.elts)):
                    raise PyRaise("ValueError", self.line)
                for i, a in enumerate(t.elts):
                    self.assign(a, unpack(v.t.a[0], th.at(v.x, i)), fr)
                return
            raise Unsupported("unpacking %s at line %d" % (v.t, self.line))
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.set_attr(o, t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            c = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            self.set_item(c, k, v)
            return
        raise Unsupported("assignment target at line %d" % self.line)

    def st_Nonlocal(self, s, fr):
        fr.nonlocals = set(getattr(fr, "nonlocals", ())) | set(s.names)

    def deref(self, o, attr):
        if o.t == NONE:
            raise PyRaise("AttributeError", self.line)
        if o.t.k == "ref" and getattr(o, "nullable", False):
            if self.branch(o.x == null(o.t.a[0])):
                raise PyRaise("AttributeError", self.line)

    def set_attr(self, o, attr, v):
        self.deref(o, attr)
        if o.t.k != "ref":
            raise Unsupported("setting attribute %s of %s at line %d" % (attr, o.t, self.line))
        key = self.reg.by_attr.get((o.t.a[0], attr))
        if key is None:
            raise Unsupported("unknown attribute %s.%s at line %d" % (o.t.a[0], attr, self.line))
        t = self.reg.fields[key]
        if t.k in CONTAINER:
            if v.t.k in CONTAINER or v.t in (T("emptyseq"), T("emptymap")):
                if isinstance(v.x, Loc):
                    n = self.norm(v)
                    if n.x.root[0] == "field" or n.x.path:
                        raise Unsupported("the list stored in %s is shared with another place (line %d)" % (key, self.line))
                    content = self.coerce(v, t)
                    self.write_field(key, o.x, content)
                    self.bump(key)
                    self.boxes[n.x.root[1]] = Loc(("field", key, o.x, self.epochs.get(key, 0)))
                    return
                self.write_field(key, o.x, self.coerce(v, t))
                self.bump(key)
                return
        self.write_field(key, o.x, v)

    def bump(self, key):
        self._ep = getattr(self, "_ep", 0) + 1
        self.epochs[key] = self._ep

    # ------------------------------------------------------------ containers
    def key_of(self, cv, k):
        """Key term of a dictionary or set operation, and the key object for Node keys."""
        kt = cv.t.a[0]
        if kt == Ref("Node"):
            self.deref(k, "__hash__")
            k = self.coerce(k, kt)
            # dictionaries keep the number a key had when it was inserted: keys must not be renumbered meanwhile
            q = z3.Int("q")
            nid = self.hget("Node.nid")[0]
            self.prove("keys of a dictionary keep their hash", z3.ForAll([q], z3.Implies(cv.x.has(q), z3.Select(nid, cv.x.key(q)) == q), patterns=[cv.x.has(q)]))
            return z3.Select(nid, k.x), k.x
        if kt.k == "id" and len(kt.a) == 2 and k.t.k == "ref":
            # keyed by number, told apart by identity: the nodes used as keys have different numbers
            self.deref(k, "__hash__")
            self.of_family(kt, k.x)
            return k.x, None
        return pack(self.coerce(k, kt)), None

    def of_family(self, kt, x):
        fam, c = self.spec.families[kt.a[1]], self.ctx()
        a, b = z3.Consts("fa fb", NODE)
        nid = self.hget("Node.nid")[0]
        self.prove("the key is one of the %s nodes" % kt.a[1], fam(c, x))
        self.prove("the %s nodes have different numbers" % kt.a[1], z3.ForAll([a, b], z3.Implies(z3.And(fam(c, a), fam(c, b), nid[a] == nid[b]), a == b), patterns=[z3.MultiPattern(nid[a], nid[b])]))

    def set_item(self, c, k, v):
        cv = self.read(c)
        if cv.t == T("emptymap"):
            kt = k.t
            vt = v.t
            cv = empty_content(Map(kt, vt))
            self.retype(c, cv)
        self.share(v)
        if cv.t.k == "map":
            kt, obj = self.key_of(cv, k)
            val = pack(self.coerce(v, cv.t.a[1]))
            newobj = cv.x.obj
            if obj is not None:
                newobj = z3.If(cv.x.has(kt), cv.x.obj, z3.Store(cv.x.obj, kt, obj))
            self.write(c, V(cv.t, MapC(z3.Store(cv.x.dom, kt, z3.BoolVal(True)), z3.Store(cv.x.val, kt, val), newobj)))
            return
        if cv.t.k == "seq":
            th = SeqTheory(cv.t.a[0])
            i = self.coerce(k, INT).x
            n = th.len(cv.x)
            if not self.branch(z3.And(i >= -n, i < n)):
                raise PyRaise("IndexError", self.line)
            i = z3.simplify(i)
            if z3.is_int_value(i):
                i = i if i.as_long() >= 0 else n + i
            elif self.feasible(i < 0):
                i = self.named(z3.If(i < 0, i + n, i))
            self.write(c, V(cv.t, th.upd(cv.x, i, pack(self.coerce(v, cv.t.a[0])))))
            return
        self.ext_method(c, "__setitem__", [k, v], {}, None)

    def retype(self, v, content):
        """Gives an empty container display its element type at first use."""
        n = self.norm(v)
        if n.x.root[0] != "box" or n.x.path:
            raise Unsupported("untyped empty container at line %d" % self.line)
        self.boxes[n.x.root[1]] = content
        if not hasattr(self, "boxtypes"):
            self.boxtypes = {}
        self.boxtypes[n.x.root[1]] = content.t
        if self.writes is not None:
            self.writes.add(("box", n.x.root[1]))

    def share(self, x):
        """x becomes an element of another container: its content is copied, so it may not be changed any more."""
        if isinstance(x.x, Loc):
            n = self.norm(x)
            if n.x.root[0] == "box":
                if not hasattr(self, "shared"):
                    self.shared = set()
                self.shared.add(n.x.root[1])

    def seq_append(self, c, x):
        self.share(x)
        cv = self.read(c)
        if cv.t == T("emptyseq"):
            et = x.t if x.t.k not in CONTAINER else self.read(x).t
            cv = empty_content(Seq(et))
            self.retype(c, cv)
        th = SeqTheory(cv.t.a[0])
        self.seq_types.add(cv.t.a[0])
        self.write(c, V(cv.t, th.app(cv.x, pack(self.coerce(x, cv.t.a[0])))))

    def seq_extend(self, c, v):
        v = self.to_seq(v)
        cv = self.read(c)
        if v.t == T("emptyseq"):
            return
        if cv.t == T("emptyseq"):
            self.retype(c, v)
            return
        th = SeqTheory(cv.t.a[0])
        v = self.coerce(v, cv.t)
        self.write(c, V(cv.t, th.cat(cv.x, v.x)))

    def to_seq(self, v):
        """Pure sequence with the elements of an iterable, in iteration order."""
        if v.t == PY and isinstance(v.x, GenVal):
            return self.consume(v.x)
        if v.t.k == "opt":
            self.prove("the value is not None", z3.Not(v.x[0]))
            v = v.x[1]
        v = self.read(v) if v.t.k in CONTAINER or isinstance(v.x, Loc) else v
        if v.t.k == "seq" or v.t == T("emptyseq"):
            return v
        if v.t.k == "tup":
            if not v.x:
                return V(T("emptyseq"), None)
            t = v.x[0].t
            return self.coerce(v, Seq(t))
        d = self.iterate(v)
        if d.seq is not None:
            return d.seq
        raise Unsupported("cannot make a list of %s at line %d" % (v.t, self.line))

    def len_term(self, v):
        v = self.read(v) if isinstance(v.x, Loc) else v
        if v.t.k == "seq":
            return SeqTheory(v.t.a[0]).len(v.x)
        if v.t.k == "tup":
            return z3.IntVal(len(v.x))
        if v.t in (T("emptyseq"), T("emptymap")):
            return z3.IntVal(0)
        raise Unsupported("len of %s at line %d" % (v.t, self.line))

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        t = v.t
        if t == BOOL:
            return v.x
        if t == INT or t == REAL:
            return v.x != 0
        if t == NONE:
            return z3.BoolVal(False)
        if t == PY:
            return z3.BoolVal(bool(v.x))
        if t == STR:
            return v.x != strlit("")
        if t.k == "ref":
            self.no_truth_methods(t.a[0])
            return v.x != null(t.a[0])
        if t.k == "tup":
            return z3.BoolVal(len(v.x) > 0)
        if t.k == "snoc":
            return z3.Not(Path.is_nil(v.x))
        if t.k == "opt":
            return z3.And(z3.Not(v.x[0]), self.truth(v.x[1]))
        if t.k == "sort":
            return fn("truth_" + t.a[0], sort_of(t), z3.BoolSort())(v.x)
        if isinstance(v.x, Loc) or t.k in CONTAINER or t in (T("emptyseq"), T("emptymap")):
            c = self.read(v)
            if c.t in (T("emptyseq"), T("emptymap")):
                return z3.BoolVal(False)
            if c.t.k == "seq":
                return SeqTheory(c.t.a[0]).len(c.x) > 0
            if c.t.k in ("map", "set"):
                return c.x.dom != z3.K(keysort(c.t.a[0]), z3.BoolVal(False))
        raise Unsupported("truth value of %s at line %d" % (t, self.line))

    def no_truth_methods(self, cls):
        c = self.get_class(cls)
        if c is not None and ("__bool__" in c.methods or "__len__" in c.methods):
            raise Unsupported("truth value of a %s, which defines __len__ or __bool__ (line %d)" % (cls, self.line))

    def get_class(self, name):
        if name not in self.reg.classes:
            return None
        file, py = self.reg.classes[name]
        if file is None:
            return None
        return front.module(file).classes.get(py)

    def cond(self, e, fr):
        """Branches on the truth of an expression (short circuits become forks)."""
        if isinstance(e, ast.BoolOp):
            for x in e.values[:-1]:
                b = self.cond(x, fr)
                if isinstance(e.op, ast.And) and not b:
                    return False
                if isinstance(e.op, ast.Or) and b:
                    return True
            return self.cond(e.values[-1], fr)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, fr)
        return self.branch(self.truth(self.eval(e, fr)))

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.line = getattr(e, "lineno", self.line)
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %d" % (type(e).__name__, self.line))
        return m(e, fr)

    def pyconst(self, c):
        if c is None:
            return NONEV
        if isinstance(c, bool):
            return V(BOOL, z3.BoolVal(c))
        if isinstance(c, int):
            return V(INT, z3.IntVal(c))
        if isinstance(c, float):
            return V(REAL, z3.RealVal(str(c))) if c == c and abs(c) != float("inf") else pyv(c)
        if isinstance(c, str):
            v = V(STR, strlit(c))
            v.lit = c
            return v
        return pyv(c)

    def ex_Constant(self, e, fr):
        return self.pyconst(e.value)

    def ex_Name(self, e, fr):
        f = fr.find(e.id)
        if f is not None:
            v = f.vars[e.id]
            if v.t == UNDEF:
                raise Unsupported("variable %s is used after a loop that rebinds it (line %d)" % (e.id, self.line))
            return v
        mod = self.mod_of(fr)
        r = front.lookup(mod, e.id)
        if r is not None:
            return self.global_value(r, e.id)
        if e.id in BUILTINS:
            return pyv(Builtin(e.id))
        raise PyRaise("NameError", self.line)

    def mod_of(self, fr):
        while fr is not None:
            if fr.func is not None:
                return fr.func.mod
            fr = fr.parent
        return self.func.mod

    def global_value(self, r, name):
        if r[0] == "func":
            return pyv(FuncVal(r[1]))
        if r[0] == "class":
            return pyv(ClassVal(r[1]))
        if r[0] == "const":
            return self.eval(r[2], Frame(front.Func(r[1], "<module>", ast.parse("def f(): pass").body[0])))
        if r[0] == "module":
            return pyv(ModuleVal(r[1]))
        if r[0] == "ext":
            return pyv(ModuleVal(r[1] + "." + r[2]))
        raise Unsupported("global %s" % name)

    def ex_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.get_attr(o, e.attr)

    def get_attr(self, o, attr):
        if o.t == PY:
            if isinstance(o.x, ModuleVal):
                return pyv(ModuleVal(o.x.name + "." + attr))
            if isinstance(o.x, ClassVal):
                if attr in o.x.cls.methods:
                    return pyv(FuncVal(o.x.cls.methods[attr]))
                if attr in o.x.cls.consts:
                    return self.eval(o.x.cls.consts[attr], Frame(front.Func(o.x.cls.mod, "<class>", ast.parse("def f(): pass").body[0])))
            if isinstance(o.x, Super):
                m = self.find_method(o.x.cls, attr)
                return pyv(FuncVal(m, None, o.x.recv))
        self.deref(o, attr)
        if o.t.k == "ref":
            cls = o.t.a[0]
            key = self.reg.by_attr.get((cls, attr))
            if key is not None:
                t = self.reg.fields[key]
                if t.k in CONTAINER:
                    return V(t, Loc(("field", key, o.x, self.epochs.get(key, 0))))
                v = self.read_field(key, o.x)
                if key in getattr(self.reg, "nullable_fields", ()):
                    v.nullable = True
                return v
            if (cls, attr) in self.reg.methods:
                h = self.reg.methods[(cls, attr)]
                if getattr(h, "is_property", False):
                    return h(self, o, [], {}, None)
                return pyv(Builtin(attr, o))
            c = self.get_class(cls)
            if c is not None:
                m = self.find_method(c, attr)
                if m is not None:
                    if "property" in m.decorators:
                        return self.call_func(FuncVal(m, None, o), [], {}, None)
                    if "staticmethod" in m.decorators:
                        return pyv(FuncVal(m))
                    return pyv(FuncVal(m, None, o))
            raise Unsupported("attribute %s of %s at line %d" % (attr, o.t, self.line))
        h = self.reg.methods.get((o.t.a[0], attr)) if o.t.k == "sort" else None
        if getattr(h, "is_property", False):
            return h(self, o, [], {}, None)
        return pyv(Builtin(attr, o))

    def find_method(self, c, attr, seen=()):
        if attr in c.methods:
            return c.methods[attr]
        for b in c.bases:
            r = front.lookup(c.mod, b.split(".")[-1])
            if r and r[0] == "class":
                m = self.find_method(r[1], attr)
                if m is not None:
                    return m
        return None

    def ex_Tuple(self, e, fr):
        vs = [self.eval(x, fr) for x in e.elts]
        vs = [self.read(v) if v.t.k in CONTAINER and not isinstance(v.x, Loc) else v for v in vs]
        return V(Tup(*[v.t for v in vs]), vs)

    def ex_List(self, e, fr):
        if not e.elts:
            return self.new_box(V(T("emptyseq"), None))
        vs = [self.eval(x, fr) for x in e.elts]
        t = vs[0].t
        if t == PY or t == T("emptyseq") or any(v.t != t for v in vs):
            if any(v.t == NONE for v in vs) and any(v.t.k == "ref" for v in vs):
                t = [v.t for v in vs if v.t.k == "ref"][0]
            else:
                return V(Tup(*[v.t for v in vs]), vs)
        s = SeqTheory(t).empty
        for v in vs:
            self.share(v)
            s = SeqTheory(t).app(s, pack(self.coerce(v, t)))
        self.seq_types.add(t)
        return self.new_box(V(Seq(t), s))

    def ex_Dict(self, e, fr):
        if not e.keys:
            return self.new_box(V(T("emptymap"), None))
        b = None
        for k, v in zip(e.keys, e.values):
            kv, vv = self.eval(k, fr), self.eval(v, fr)
            if b is None:
                b = self.new_box(empty_content(Map(kv.t, vv.t)))
            self.set_item(b, kv, vv)
        return b

    def ex_Set(self, e, fr):
        vs = [self.eval(x, fr) for x in e.elts]
        b = self.new_box(empty_content(Set(vs[0].t)))
        for v in vs:
            self.set_add(b, v)
        return b

    def set_add(self, c, x):
        cv = self.read(c)
        if cv.t == T("emptymap"):
            cv = empty_content(Set(x.t))
            self.retype(c, cv)
        kt, obj = self.key_of(cv, x)
        newobj = cv.x.obj
        if obj is not None:
            newobj = z3.If(cv.x.has(kt), cv.x.obj, z3.Store(cv.x.obj, kt, obj))
        self.write(c, V(cv.t, MapC(z3.Store(cv.x.dom, kt, z3.BoolVal(True)), None, newobj)))

    def ex_Lambda(self, e, fr):
        return pyv(LambdaVal(e, self.mod_of(fr), fr))

    def ex_IfExp(self, e, fr):
        return self.eval(e.body, fr) if self.cond(e.test, fr) else self.eval(e.orelse, fr)

    def ex_BoolOp(self, e, fr):
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            b = self.branch(self.truth(v))
            if isinstance(e.op, ast.And) and not b:
                return v
            if isinstance(e.op, ast.Or) and b:
                return v
        return self.eval(e.values[-1], fr)

    def ex_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return V(BOOL, z3.Not(self.truth(self.eval(e.operand, fr))))
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.USub) and v.t in (INT, REAL):
            return V(v.t, z3.simplify(-v.x))
        if isinstance(e.op, ast.UAdd) and v.t in (INT, REAL):
            return v
        return self.ext_op("unary " + type(e.op).__name__, [v])

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr), fr)

    def binop(self, op, a, b, fr):
        num = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}
        if a.t == BOOL and b.t in (INT, REAL):
            a = self.coerce(a, INT)
        if b.t == BOOL and a.t in (INT, REAL):
            b = self.coerce(b, INT)
        if a.t in (INT, REAL) and b.t in (INT, REAL):
            if a.t != b.t:
                a, b = self.coerce(a, REAL), self.coerce(b, REAL)
            if type(op) in num:
                return V(a.t, num[type(op)](a.x, b.x))
            if isinstance(op, ast.Mod) and a.t == INT:
                self.prove("divisor is positive", b.x > 0)
                return V(INT, a.x % b.x)
            if isinstance(op, ast.FloorDiv) and a.t == INT:
                self.prove("divisor is positive", b.x > 0)
                return V(INT, a.x / b.x)
        if isinstance(op, ast.Mod) and a.t == STR:
            return self.format_string(a, b)
        if isinstance(op, ast.Add) and a.t == STR and b.t == STR:
            return self.concat([a, b])
        if isinstance(op, ast.Add):
            a, b = [self.coerce(v, v.t.a[0]) if v.t.k == "opt" and v.t.a[0].k == "seq" else v for v in (a, b)]
            if a.t.k == "snoc" or (a.t.k == "tup" and b.t.k == "snoc"):
                a = self.coerce(a, SNOC)
                if b.t.k == "tup":
                    p = a.x
                    for x in b.x:
                        p = Path.snoc(p, x.x)
                    return V(SNOC, p)
                raise Unsupported("concatenation of path tuples at line %d" % self.line)
            ar = self.read(a) if isinstance(a.x, Loc) else a
            br = self.read(b) if isinstance(b.x, Loc) else b
            if ar.t.k == "tup" and br.t.k == "tup":
                return V(Tup(*[x.t for x in ar.x + br.x]), ar.x + br.x)
            if ar.t == T("emptyseq"):
                return self.new_box(br)
            if br.t == T("emptyseq"):
                return self.new_box(ar)
            if ar.t.k == "seq" and br.t == ar.t:
                return self.new_box(V(ar.t, SeqTheory(ar.t.a[0]).cat(ar.x, br.x)))
        if a.t.k in ("set",) or b.t.k == "set" or (isinstance(a.x, Loc) and self.read(a).t.k == "set"):
            x, y = self.read(a), self.read(b)
            if x.t == T("emptymap"):
                x = empty_content(y.t)
            if y.t == T("emptymap"):
                y = empty_content(x.t)
            if x.t == y.t and x.t.k == "set" and x.x.obj is None:
                ks = keysort(x.t.a[0])
                f = {ast.BitOr: z3.Or, ast.BitAnd: z3.And, ast.Sub: lambda p, q: z3.And(p, z3.Not(q)), ast.BitXor: z3.Xor}.get(type(op))
                if f:
                    k = z3.Const("k", ks)
                    empty = lambda c: z3.is_K(z3.simplify(c.dom)) and z3.is_false(z3.simplify(c.dom).arg(0))
                    if isinstance(op, (ast.BitOr, ast.BitXor)) and (empty(x.x) or empty(y.x)):
                        return self.new_box(V(x.t, y.x if empty(x.x) else x.x))
                    r = fresh("combined", x.t)
                    self.fact(z3.ForAll([k], r.x.has(k) == f(x.x.has(k), y.x.has(k)), patterns=[c.has(k) for c in (r.x, x.x, y.x) if not empty(c)]))
                    return self.new_box(r)
            if x.t == y.t == Set(Ref("Node")):
                f = {ast.BitOr: z3.Or, ast.BitAnd: z3.And, ast.Sub: lambda p, q: z3.And(p, z3.Not(q)), ast.BitXor: z3.Xor}.get(type(op))
                if f:
                    k = z3.Const("k", z3.IntSort())
                    obj = x.x.obj if isinstance(op, (ast.BitAnd, ast.Sub)) else z3.Lambda([k], z3.If(x.x.has(k), x.x.key(k), y.x.key(k)))
                    r = fresh("combined", x.t)
                    self.fact(z3.ForAll([k], r.x.has(k) == f(x.x.has(k), y.x.has(k)), patterns=[r.x.has(k), x.x.has(k), y.x.has(k)]))
                    self.fact(z3.ForAll([k], r.x.key(k) == z3.Select(obj, k) if isinstance(op, (ast.BitAnd, ast.Sub)) else r.x.key(k) == z3.If(x.x.has(k), x.x.key(k), y.x.key(k)), patterns=[r.x.key(k)]))
                    return self.new_box(r)
        return self.ext_op(type(op).__name__, [a, b])

    def ext_op(self, name, vs):
        h = self.reg.externs.get("op:" + name)
        if h is not None:
            r = h(self, vs)
            if r is not None:
                return r
        raise Unsupported("operator %s on %s at line %d" % (name, [v.t for v in vs], self.line))

    # comparisons
    def ex_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            b = self.compare(op, left, right, fr)
            if res is None:
                res = b
            else:
                res = z3.And(res, b)
            left = right
        return V(BOOL, res)

    def compare(self, op, a, b, fr):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return z3.Not(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return z3.Not(self.contains(b, a))
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_equal(a, b)
        return self.order(op, a, b)

    def identical(self, a, b):
        if a.t == NONE and b.t == NONE:
            return z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if x.t == NONE:
                if y.t.k == "ref":
                    return y.x == null(y.t.a[0])
                if y.t.k == "opt":
                    return y.x[0]
                if y.t == VAL:
                    return y.x == z3.Const("val_None", usort("Val"))
                return z3.BoolVal(False)
        if a.t.k == "ref" and b.t == a.t:
            return a.x == b.x
        if a.t == BOOL and b.t == BOOL:
            return a.x == b.x
        if a.t == PY and b.t == PY:
            return z3.BoolVal(a.x is b.x or getattr(a.x, "name", 1) == getattr(b.x, "name", 2))
        if isinstance(a.x, Loc) and isinstance(b.x, Loc):
            x, y = self.norm(a).x, self.norm(b).x
            if x.root[0] != y.root[0] or x.root[:2] != y.root[:2]:
                return z3.BoolVal(False)
            if x.root[0] == "box" and not x.path and not y.path:
                return z3.BoolVal(x.root[1] == y.root[1])
            if x.root[0] == "field" and not x.path and not y.path:
                return x.root[2] == y.root[2]
        raise Unsupported("identity of %s and %s at line %d" % (a.t, b.t, self.line))

    def user_cmp(self, name, a, b):
        """Calls a comparison method of the class of a; None if there is none."""
        if a.t.k != "ref":
            return None
        c = self.get_class(a.t.a[0])
        if c is None:
            return None
        m = self.find_method(c, name)
        if m is None:
            return None
        return self.truth(self.merge_eval(lambda: self.call_func(FuncVal(m, None, a), [b], {}, None), self.frame, name))

    def equal(self, a, b):
        if a.t == VAL or b.t == VAL:
            h = self.reg.externs.get("op:ValEq")
            r = h(self, a, b) if h is not None else None
            if r is not None:
                return r
        if a.t == NONE and b.t == NONE:
            return z3.BoolVal(True)
        if a.t.k == "opt" and b.t.k != "opt":
            return z3.BoolVal(False) if b.t == NONE and False else (a.x[0] if b.t == NONE else z3.And(z3.Not(a.x[0]), self.equal(a.x[1], b)))
        if b.t.k == "opt" and a.t.k != "opt":
            return self.equal(b, a)
        if a.t.k == "ref" and (b.t.k == "ref" or b.t == NONE):
            if b.t == NONE:
                return a.x == null(a.t.a[0])
            r = self.user_cmp("__eq__", a, b)
            return r if r is not None else a.x == b.x
        if b.t.k == "ref" and a.t == NONE:
            return b.x == null(b.t.a[0])
        if a.t in (INT, REAL, BOOL) and b.t in (INT, REAL, BOOL):
            if a.t == BOOL and b.t == BOOL:
                return a.x == b.x
            if a.t == b.t:
                return a.x == b.x
            return self.coerce(self.coerce(a, INT) if a.t == BOOL else a, REAL).x == self.coerce(self.coerce(b, INT) if b.t == BOOL else b, REAL).x
        if a.t == STR and b.t == STR:
            la, lb = getattr(a, "lit", None), getattr(b, "lit", None)
            if la is not None and lb is not None:
                return z3.BoolVal(la == lb)
            return a.x == b.x
        if a.t.k == "tup" and b.t.k == "tup":
            if len(a.x) != len(b.x):
                return z3.BoolVal(False)
            return z3.And(*[self.equal(x, y) for x, y in zip(a.x, b.x)])
        if a.t.k in ("id", "val", "sort", "snoc") and a.t == b.t:
            return a.x == b.x
        if a.t == PY and b.t == PY:
            return z3.BoolVal(a.x == b.x)
        simple = (INT, REAL, BOOL, STR, NONE)
        if (a.t in simple or a.t.k == "tup") and (b.t in simple or b.t.k == "tup"):
            return z3.BoolVal(False)
        if a.t.k in CONTAINER and b.t.k in CONTAINER:
            x, y = self.read(a), self.read(b)
            h = self.reg.externs.get("op:SeqEq")
            if h is not None and x.t == y.t and x.t.k == "seq":
                r = h(self, x, y)
                if r is not None:
                    return r
            if x.t == y.t and x.t.k == "set":
                return x.x.dom == y.x.dom
            if x.t.k == "seq" and y.t == T("emptyseq"):
                return self.len_term(x) == 0
            if x.t == y.t and x.t.k == "seq" and x.t.a[0] not in (Ref("Node"), Ref("Frame")):
                return x.x == y.x  # extensionality is not used: equality of contents follows from identity only
        h = self.reg.externs.get("op:Eq")
        if h is not None:
            r = h(self, [a, b])
            if r is not None:
                return r.x
        raise Unsupported("comparison of %s and %s at line %d" % (a.t, b.t, self.line))

    def not_equal(self, a, b):
        if a.t.k == "ref" and b.t.k == "ref":
            r = self.user_cmp("__ne__", a, b)
            if r is not None:
                return r
        return z3.Not(self.equal(a, b))

    def order(self, op, a, b):
        if a.t.k == "ref":
            name = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
            r = self.user_cmp(name, a, b)
            if r is not None:
                return r
            c = self.get_class(a.t.a[0])
            if c is not None and "total_ordering" in c.decorators:
                lt = self.user_cmp("__lt__", a, b)
                if lt is not None:
                    if isinstance(op, ast.LtE):
                        return z3.Or(lt, self.equal(a, b))
                    if isinstance(op, ast.GtE):
                        return z3.Not(lt)
                    if isinstance(op, ast.Gt):
                        return z3.And(z3.Not(lt), self.not_equal(a, b))
            raise Unsupported("%s of %s at line %d" % (name, a.t, self.line))
        if a.t in (INT, REAL, BOOL) and b.t in (INT, REAL, BOOL):
            if a.t != b.t or a.t == BOOL:
                t = REAL if REAL in (a.t, b.t) else INT
                a, b = (self.coerce(self.coerce(x, INT) if x.t == BOOL else x, t) for x in (a, b))
            x, y = a.x, b.x
        elif a.t.k == "id" and b.t == a.t:
            x, y = addr(a.x), addr(b.x)
        elif a.t.k == "tup" and b.t.k == "tup" and len(a.x) == len(b.x):
            if isinstance(op, (ast.Lt, ast.Gt)):
                r = z3.BoolVal(False)
                for p, q in reversed(list(zip(a.x, b.x))):
                    r = z3.Or(self.order(op, p, q), z3.And(self.equal(p, q), r))
                return r
            strict = ast.Lt() if isinstance(op, ast.LtE) else ast.Gt()
            return z3.Or(self.order(strict, a, b), self.equal(a, b))
        else:
            h = self.reg.externs.get("op:Order")
            r = h(self, op, a, b) if h is not None else None
            if r is not None:
                return r
            raise Unsupported("ordering of %s and %s at line %d" % (a.t, b.t, self.line))
        return {ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y, ast.GtE: x >= y}[type(op)]

    def contains(self, c, x):
        cv = self.read(c) if isinstance(c.x, Loc) else c
        if cv.t in (T("emptyseq"), T("emptymap")):
            return z3.BoolVal(False)
        if cv.t.k in ("map", "set"):
            kt, _ = self.key_of(cv, x)
            return cv.x.has(kt)
        if cv.t.k == "tup":
            return z3.Or(*[self.equal(x, y) for y in cv.x]) if cv.x else z3.BoolVal(False)
        if cv.t.k == "seq":
            et = cv.t.a[0]
            th = SeqTheory(et)
            if et.k == "ref" and self.get_class(et.a[0]) is not None and self.find_method(self.get_class(et.a[0]), "__eq__") is not None:
                # membership goes through __eq__: some element equals x
                i = z3.Int(fresh_name("ci"))
                el = unpack(et, th.at(cv.x, i))
                eq = self.equal(el, self.coerce(x, et))
                r = const("isin", z3.BoolSort())
                w = const("isin_at", z3.IntSort())
                self.fact(z3.Implies(r, z3.And(w >= 0, w < th.len(cv.x), z3.substitute(eq, (i, w)))))
                self.fact(z3.Implies(z3.Not(r), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < th.len(cv.x)), z3.Not(eq)), patterns=[th.at(cv.x, i)])))
                return r
            return th.mem(cv.x, pack(self.coerce(x, et)))
        h = self.reg.methods.get((cv.t.k if cv.t.k != "ref" else cv.t.a[0], "__contains__"))
        if h is not None:
            return h(self, c, [x], {}, None).x
        raise Unsupported("in %s at line %d" % (cv.t, self.line))

    # subscripts
    def ex_Subscript(self, e, fr):
        c = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else None
            if e.slice.step is not None:
                raise Unsupported("slice with a step at line %d" % self.line)
            return self.slice(c, lo, hi)
        k = self.eval(e.slice, fr)
        return self.get_item(c, k)

    def concrete_int(self, v):
        t = z3.simplify(v.x)
        return t.as_long() if z3.is_int_value(t) else None

    def slice(self, c, lo, hi):
        cv = self.read(c) if isinstance(c.x, Loc) else c
        if cv.t.k == "tup":
            l = self.concrete_int(lo) if lo else None
            h = self.concrete_int(hi) if hi else None
            if (lo and l is None) or (hi and h is None):
                raise Unsupported("slice of a tuple at line %d" % self.line)
            xs = cv.x[l:h]
            return V(Tup(*[x.t for x in xs]), xs)
        if cv.t == STR:
            l, h = (self.concrete_int(v) if v is not None else None for v in (lo, hi))
            if (lo is not None and l is None) or (hi is not None and h is None):
                raise Unsupported("slice of a text at line %d" % self.line)
            return V(STR, str_slice(l, h)(cv.x))
        if cv.t.k == "seq":
            th = SeqTheory(cv.t.a[0])
            n = th.len(cv.x)

            def clamp(v, d):
                if v is None:
                    return d
                i = z3.If(v.x < 0, v.x + n, v.x)
                return z3.If(i < 0, z3.IntVal(0), z3.If(i > n, n, i))
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
            r = const("slice", Seq(cv.t.a[0]))
            i = z3.Int("i")
            ln = z3.If(b > a, b - a, z3.IntVal(0))
            self.fact(th.len(r) == ln)
            self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ln), th.at(r, i) == th.at(cv.x, a + i)), patterns=[th.at(r, i)]))
            self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= a, i < b), th.at(r, i - a) == th.at(cv.x, i)), patterns=[th.at(cv.x, i)]))
            return self.new_box(V(cv.t, r))
        raise Unsupported("slice of %s at line %d" % (cv.t, self.line))

    def get_item(self, c, k):
        if c.t == PY and isinstance(c.x, ModuleVal) and c.x.name == "sys.version_info" and self.concrete_int(k) == 0:
            return V(INT, z3.IntVal(3))  # the code runs on Python 3
        if c.t.k == "ref" and c.t.a[0] in self.reg.classes:
            h = self.reg.methods.get((c.t.a[0], "__getitem__"))
            if h is not None:
                return h(self, c, [k], {}, None)
            cl = self.get_class(c.t.a[0])
            m = self.find_method(cl, "__getitem__") if cl else None
            if m is not None:
                return self.call_func(FuncVal(m, None, c), [k], {}, None)
        cv = self.read(c) if isinstance(c.x, Loc) else c
        if cv.t == T("emptymap"):
            raise PyRaise("KeyError", self.line)
        if cv.t == T("emptyseq"):
            raise PyRaise("IndexError", self.line)
        if cv.t.k == "map":
            kt, _ = self.key_of(cv, k)
            if len(cv.t.a) == 3:  # a dictionary that makes an empty container for a key it has not
                if not self.branch(cv.x.has(kt)):
                    self.set_item(c, k, self.new_box(empty_content(cv.t.a[1])))
                    cv = self.read(c)
            elif not self.branch(cv.x.has(kt)):
                raise PyRaise("KeyError", self.line)
            if cv.t.a[1].k in CONTAINER and isinstance(c.x, Loc):
                return V(cv.t.a[1], Loc(c.x.root, c.x.path + (kt,)))
            return unpack(cv.t.a[1], cv.x.get(kt))
        if cv.t.k == "seq":
            th = SeqTheory(cv.t.a[0])
            i = self.coerce(k, INT).x
            n = th.len(cv.x)
            if not self.branch(z3.And(i >= -n, i < n)):
                raise PyRaise("IndexError", self.line)
            ii = z3.simplify(i)
            if z3.is_int_value(ii):
                i = ii if ii.as_long() >= 0 else n + ii
            else:
                i = self.named(z3.If(i < 0, i + n, i)) if self.feasible(i < 0) else i
            if cv.t.a[0].k in CONTAINER and isinstance(c.x, Loc):
                return V(cv.t.a[0], Loc(c.x.root, c.x.path + (i,)))
            return unpack(cv.t.a[0], th.at(cv.x, i))
        if cv.t.k == "tup":
            i = self.concrete_int(k)
            if i is None:
                raise Unsupported("index of a tuple at line %d" % self.line)
            if not -len(cv.x) <= i < len(cv.x):
                raise PyRaise("IndexError", self.line)
            return cv.x[i]
        h = self.reg.methods.get((cv.t.k if cv.t.k != "sort" else cv.t.a[0], "__getitem__"))
        if h is not None:
            return h(self, c, [k], {}, None)
        raise Unsupported("subscript of %s at line %d" % (cv.t, self.line))

    def ex_JoinedStr(self, e, fr):
        parts = [self.in_text(self.eval(x.value if isinstance(x, ast.FormattedValue) else x, fr)) for x in e.values]
        if any(isinstance(x, ast.FormattedValue) and (x.format_spec or x.conversion != -1) for x in e.values) or any(p.t != STR for p in parts):
            return V(STR, const("fstring", STR))
        return self.concat(parts)

    # strings: their operations are functions of the texts
    def in_text(self, v):
        """What a value put into a text adds to it, where a contract says so."""
        h = self.reg.externs.get("op:str")
        r = h(self, v) if h is not None and v.t != STR else None
        return v if r is None else r

    def concat(self, parts):
        """The texts one after the other, adjacent literals joined."""
        out = []
        for p in parts:
            for q in getattr(p, "parts", None) or [p]:
                if getattr(q, "lit", None) is not None and out and getattr(out[-1], "lit", None) is not None:
                    q = self.literal(out.pop().lit + q.lit)
                if getattr(q, "lit", None) != "":
                    out.append(q)
        if not out:
            return self.literal("")
        t = out[0].x
        for q in out[1:]:
            t = str_concat(t, q.x)
        if len(out) == 1:
            return out[0]
        r = V(STR, t)
        r.parts = out
        return r

    def literal(self, s):
        v = V(STR, strlit(s))
        v.lit = s
        return v

    def format_string(self, a, b):
        """a % b, where the text has only %s in it and there are only texts to put in."""
        lit, xs = getattr(a, "lit", None), [self.in_text(x) for x in (b.x if b.t.k == "tup" else [b])]
        if lit is None or any(x.t != STR for x in xs) or re.sub("%s", "", lit).count("%") or lit.count("%s") != len(xs):
            return V(STR, const("formatted", STR))
        parts = [self.literal(p) for p in lit.split("%s")]
        return self.concat([p for pair in zip(parts, list(xs) + [self.literal("")]) for p in pair])

    def str_method(self, name, recv, args):
        if name == "format":
            args = [self.in_text(x) for x in args]
        if name == "format" and getattr(recv, "lit", None) is not None and all(x.t == STR for x in args) and re.sub("{}", "", recv.lit).count("{") == 0 and recv.lit.count("{}") == len(args):
            parts = [self.literal(p) for p in recv.lit.split("{}")]
            return self.concat([p for pair in zip(parts, list(args) + [self.literal("")]) for p in pair])
        if name in ("startswith", "endswith") and len(args) == 1 and args[0].t.k == "tup" and all(x.t == STR for x in args[0].x):
            return V(BOOL, z3.Or(*[str_test(name)(recv.x, x.x) for x in args[0].x]))
        if name in ("startswith", "endswith") and len(args) == 1 and args[0].t == STR:
            return V(BOOL, str_test(name)(recv.x, args[0].x))
        if name in ("strip", "lstrip", "rstrip", "lower", "upper") and not args:
            return V(STR, str_map(name)(recv.x))
        return None

    # ------------------------------------------------------------ comprehensions
    def ex_ListComp(self, e, fr):
        return self.comp(e, fr, "list")

    def ex_SetComp(self, e, fr):
        return self.comp(e, fr, "set")

    def ex_DictComp(self, e, fr):
        """A dictionary filled in order: of equal keys the last one counts."""
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("dictionary comprehension with conditions at line %d" % self.line)
        g = e.generators[0]
        d = self.iterate(self.eval(g.iter, fr))
        for f in d.facts:
            self.fact(f)
        pair = ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e)
        i, _, ev = self.abstract_elem(pair, g, fr, d, "dictionary comprehension")
        k, v = ev.x
        want = getattr(self, "wanted", None)
        want = want if want is not None and want.k == "map" else Map(k.t, v.t)
        if want.a[0] == Ref("Node") or want.a[0].k == "id":
            raise Unsupported("dictionary comprehension keyed by nodes at line %d" % self.line)
        kt, vt = pack(self.coerce(k, want.a[0])), pack(self.coerce(v, want.a[1]))
        r, q, j = fresh("dict", want), z3.Const("q", keysort(want.a[0])), z3.Int("j")
        at = lambda t, x: z3.substitute(t, (i, x))
        w = fn(fresh_name("last"), q.sort(), z3.IntSort())(q)
        pat = [pack(d.elem(j))] if d.seq is not None else [at(kt, j)]
        self.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < d.n), r.x.has(at(kt, j))), patterns=pat))
        self.fact(z3.ForAll([q], z3.Implies(r.x.has(q), z3.And(w >= 0, w < d.n, at(kt, w) == q, z3.Select(r.x.val, q) == at(vt, w))), patterns=[r.x.has(q)]))
        self.fact(z3.ForAll([q, j], z3.Implies(z3.And(r.x.has(q), w < j, j < d.n), at(kt, j) != q), patterns=[z3.MultiPattern(r.x.has(q), pat[0])]))
        return self.new_box(r)

    def ex_GeneratorExp(self, e, fr):
        return pyv(("genexp", e, fr))

    def abstract_elem(self, elt, gen, fr, d, what, want=None, ifs=True):
        """Evaluates (condition, element) of a comprehension at a generic position i; returns terms over the constant i."""
        i = z3.Int(fresh_name("ix"))
        sub = Frame(fr.func, fr)
        n0 = len(self.facts)
        sn = self.snap()
        self.fact(z3.And(i >= 0, i < d.n))
        cnt0 = _peek()
        oldf, self.frame_sub = getattr(self, "frame_sub", None), sub
        self.assign(gen.target, d.elem(i), sub)

        def cond():
            if not gen.ifs:
                return V(BOOL, z3.BoolVal(True))
            r = z3.BoolVal(True)
            for x in gen.ifs:
                r = z3.And(r, self.truth(self.eval(x, sub)))
            return V(BOOL, r)
        cv = self.merge_eval(cond, sub, what)
        if elt is not None:
            self.fact(cv.x)
            if isinstance(elt, ast.Tuple) and want == "pair":
                ev = self.merge_eval(lambda: self.eval(elt, sub), sub, what)
            else:
                ev = self.merge_eval(lambda: self.read(self.eval(elt, sub)), sub, what)
        else:
            ev = None
        extra = self.facts[n0 + 1:]
        self.restore(sn)
        # constants made while evaluating the element would depend on i
        for t in ([cv.x] if cv is not None else []) + (terms_of(ev) if ev is not None else []):
            for k in consts_in(t):
                if "!" in k.decl().name():
                    try:
                        num = int(k.decl().name().rsplit("!", 1)[1])
                    except ValueError:
                        continue
                    if num > cnt0 and not k.eq(i):
                        raise Unsupported("element of %s depends on a value the contract does not determine (%s) at line %d" % (what, k, self.line))
        return i, cv.x, ev

    def comp(self, e, fr, kind):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension at line %d" % self.line)
        g = e.generators[0]
        src = self.eval(g.iter, fr)
        d = self.iterate(src)
        for f in d.facts:
            self.fact(f)
        i, cond, ev = self.abstract_elem(e.elt, g, fr, d, "comprehension")
        if ev.t in (T("emptyseq"), PY, NONE):
            raise Unsupported("comprehension of %s at line %d" % (ev.t, self.line))
        et, term = ev.t, pack(ev)
        th = SeqTheory(et)
        self.seq_types.add(et)
        FA, A, Imp = z3.ForAll, z3.And, z3.Implies
        j = z3.Int("j")
        at = lambda t, k: z3.substitute(t, (i, k))
        r = const("comp", Seq(et))
        if not g.ifs:
            self.fact(th.len(r) == d.n)
            pats = [th.at(r, j)]
            self.fact(FA([j], Imp(A(j >= 0, j < d.n), th.at(r, j) == at(term, j)), patterns=pats))
            if d.seq is not None:
                st = SeqTheory(d.seq.t.a[0])
                self.fact(FA([j], Imp(A(j >= 0, j < d.n), th.at(r, j) == at(term, j)), patterns=[st.at(d.seq.x, j)]))
        else:
            src_f = fn(fresh_name("src"), z3.IntSort(), z3.IntSort())
            inv_f = fn(fresh_name("inv"), z3.IntSort(), z3.IntSort())
            k = z3.Int("k")
            self.fact(A(th.len(r) <= d.n))
            self.fact(FA([j], Imp(A(j >= 0, j < th.len(r)), A(src_f(j) >= 0, src_f(j) < d.n, inv_f(src_f(j)) == j, at(cond, src_f(j)), th.at(r, j) == at(term, src_f(j)))), patterns=[th.at(r, j)]))
            self.fact(FA([j, k], Imp(A(j >= 0, j < k, k < th.len(r)), src_f(j) < src_f(k)), patterns=[z3.MultiPattern(th.at(r, j), th.at(r, k))]))
            if d.seq is not None:
                st = SeqTheory(d.seq.t.a[0])
                p = [st.at(d.seq.x, j)]
                self.fact(FA([j], Imp(A(j >= 0, j < d.n, at(cond, j)), A(inv_f(j) >= 0, inv_f(j) < th.len(r), src_f(inv_f(j)) == j, th.at(r, inv_f(j)) == at(term, j))), patterns=p))
        v = V(Seq(et), r)
        if kind == "set":
            return self.set_of_seq(v)
        return self.new_box(v)

    def set_of_seq(self, v):
        v = self.read(v) if isinstance(v.x, Loc) else v
        if v.t == T("emptyseq"):
            return self.new_box(V(T("emptymap"), None))
        et = v.t.a[0]
        th = SeqTheory(et)
        if et == Ref("Node"):
            r = fresh("setof", Set(et))
            nid = self.hget("Node.nid")[0]
            q, n = z3.Int("q"), z3.Const("n", NODE)
            self.fact(z3.ForAll([n], z3.Implies(th.mem(v.x, n), r.x.has(z3.Select(nid, n))), patterns=[th.mem(v.x, n)]))
            self.fact(z3.ForAll([q], z3.Implies(r.x.has(q), z3.And(th.mem(v.x, r.x.key(q)), z3.Select(nid, r.x.key(q)) == q)), patterns=[r.x.has(q)]))
            return self.new_box(r)
        if et == Seq(Ref("Node")):
            self.one_node_per_key(v.x)
        x = z3.Const("x", sort_of(et))
        if et.k == "seq":
            r = fresh("setof", Set(et))
            self.fact(z3.ForAll([x], r.x.has(x) == th.mem(v.x, x), patterns=[r.x.has(x), th.mem(v.x, x)]))
            return self.new_box(r)
        return self.new_box(V(Set(et), MapC(z3.Lambda([x], th.mem(v.x, x)))))

    def one_node_per_key(self, lists):
        """Lists of nodes are compared by the numbers of their nodes: that is the same as comparing the lists."""
        a, b = z3.Consts("la lb", sort_of(Seq(Ref("Node"))))
        x, y = z3.Consts("x y", NODE)
        o, i = SeqTheory(Seq(Ref("Node"))), SeqTheory(Ref("Node"))
        nid = self.hget("Node.nid")[0]
        self.prove("equal nodes in lists that are compared are one node", z3.ForAll([a, b, x, y], z3.Implies(z3.And(o.mem(lists, a), o.mem(lists, b), i.mem(a, x), i.mem(b, y), nid[x] == nid[y]), x == y)))

    def set_of_lists(self, cv, ss, op):
        """set.union(*lists) and set.intersection(*lists) for any number of lists of nodes."""
        if cv.t == T("emptymap"):
            cv = empty_content(Set(Ref("Node")))
        if ss.t != Seq(Seq(Ref("Node"))) or cv.t != Set(Ref("Node")):
            raise Unsupported("%s of the lists of a list at line %d" % (op, self.line))
        outer, inner = SeqTheory(ss.t.a[0]), SeqTheory(Ref("Node"))
        self.seq_types |= {ss.t.a[0], Ref("Node")}
        nid = self.hget("Node.nid")[0]
        r = fresh(op, cv.t)
        q, i, n = z3.Int("q"), z3.Int("i"), z3.Const("n", NODE)
        s = self.named(ss.x) if not z3.is_const(ss.x) else ss.x
        at, mem, ln = outer.at, inner.mem, outer.len(s)
        inside = z3.And(0 <= i, i < ln)
        w = fn(fresh_name(op + "_in"), z3.IntSort(), z3.IntSort(), NODE)
        u = fn(fresh_name(op + "_at"), z3.IntSort(), z3.IntSort())
        FA, MP, Imp, And = z3.ForAll, z3.MultiPattern, z3.Implies, z3.And
        if op == "intersection":
            self.fact(FA([q], Imp(r.x.has(q), And(cv.x.has(q), r.x.key(q) == cv.x.key(q))), patterns=[r.x.has(q)]))
            self.fact(FA([q, i], Imp(And(r.x.has(q), inside), And(mem(at(s, i), w(q, i)), nid[w(q, i)] == q)), patterns=[MP(r.x.has(q), at(s, i))]))
            self.fact(FA([q], Imp(And(cv.x.has(q), z3.Not(r.x.has(q))), And(0 <= u(q), u(q) < ln, FA([n], Imp(mem(at(s, u(q)), n), nid[n] != q), patterns=[mem(at(s, u(q)), n)]))), patterns=[cv.x.has(q)]))
        else:
            self.fact(FA([q], Imp(cv.x.has(q), And(r.x.has(q))), patterns=[cv.x.has(q)]))
            self.fact(FA([i, n], Imp(And(inside, mem(at(s, i), n)), r.x.has(nid[n])), patterns=[mem(at(s, i), n)]))
            self.fact(FA([q], Imp(r.x.has(q), z3.Or(And(cv.x.has(q), r.x.key(q) == cv.x.key(q)), And(0 <= u(q), u(q) < ln, mem(at(s, u(q)), r.x.key(q)), nid[r.x.key(q)] == q))), patterns=[r.x.has(q)]))
        return self.new_box(r)

    def quantified(self, ge, conj):
        """all(...)/any(...) over a generator expression."""
        _, e, fr = ge
        if len(e.generators) != 1:
            raise Unsupported("nested generator expression at line %d" % self.line)
        g = e.generators[0]
        d = self.iterate(self.eval(g.iter, fr))
        for f in d.facts:
            self.fact(f)
        if isinstance(d.n, z3.ArithRef) and z3.is_int_value(z3.simplify(d.n)) and z3.simplify(d.n).as_long() <= 8:
            rs = []
            for k in range(z3.simplify(d.n).as_long()):
                sub = Frame(fr.func, fr)
                self.assign(g.target, d.elem(z3.IntVal(k)), sub)
                c = z3.And(*[self.truth(self.eval(x, sub)) for x in g.ifs]) if g.ifs else z3.BoolVal(True)
                b = self.truth(self.merge_eval(lambda: self.eval(e.elt, sub), sub, "generator expression"))
                rs.append(z3.Implies(c, b) if conj else z3.And(c, b))
            return V(BOOL, (z3.And if conj else z3.Or)(*rs) if rs else z3.BoolVal(conj))
        sub_elt = ast.copy_location(ast.Call(func=ast.Name(id="bool", ctx=ast.Load()), args=[e.elt], keywords=[]), e.elt)
        ast.fix_missing_locations(sub_elt)
        i, cond, ev = self.abstract_elem(sub_elt, g, fr, d, "generator expression")
        b = ev.x
        r = const("all" if conj else "any", z3.BoolSort())
        w = const("witness", z3.IntSort())
        j = z3.Int("j")
        holds = z3.Implies(cond, b) if conj else z3.And(cond, b)
        at = lambda t, k: z3.substitute(t, (i, k))
        rng = lambda k: z3.And(k >= 0, k < d.n)
        pats = [SeqTheory(d.seq.t.a[0]).at(d.seq.x, j)] if d.seq is not None else []
        if conj:
            self.fact(z3.Implies(r, z3.ForAll([j], z3.Implies(rng(j), at(holds, j)), patterns=pats)))
            self.fact(z3.Implies(z3.Not(r), z3.And(rng(w), z3.Not(at(holds, w)))))
        else:
            self.fact(z3.Implies(r, z3.And(rng(w), at(holds, w))))
            self.fact(z3.Implies(z3.Not(r), z3.ForAll([j], z3.Implies(rng(j), z3.Not(at(holds, j))), patterns=pats)))
        return V(BOOL, r)

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        if v.t == PY:
            if isinstance(v.x, GenVal):
                spec = v.x.call["spec"]
                h0 = dict(self.heap)
                s = self.consume(v.x)
                d = self.iterate(s)

                def lazily():
                    # the generator runs interleaved with the loop: the loop may not change what it reads
                    gs = []
                    for key in spec.reads:
                        for j, (a, b) in enumerate(zip(self.heap[key], h0[key])):
                            if not a.eq(b):
                                ok = spec.lazy_ok.get(key)
                                o, al = z3.Const("o", usort(key.split(".")[0])), h0["alive." + key.split(".")[0]][0]
                                # objects made meanwhile are not reached (the fields of live objects refer to live objects)
                                gs.append(ok(s.x, a, b) if ok else z3.ForAll([o], z3.Implies(z3.Select(al, o), a[o] == b[o]), patterns=[a[o]]))
                    return z3.And(*gs) if gs else None
                d.unchanged = lazily
                return d
            if isinstance(v.x, tuple) and v.x and v.x[0] == "iterdesc":
                return v.x[1]
            if isinstance(v.x, tuple) and v.x and v.x[0] == "genexp":
                e, fr = v.x[1], v.x[2]
                return self.iterate(self.comp(e, fr, "list"))
        if v.t == T("iter"):
            raise Unsupported("iterating an iterator object at line %d" % self.line)
        place = v if isinstance(v.x, Loc) else None
        cv = self.read(v) if isinstance(v.x, Loc) else v
        if cv.t in (T("emptyseq"), T("emptymap")):
            return IterDesc(z3.IntVal(0), lambda i: V(INT, i), None)
        if cv.t.k == "tup":
            items = cv.x

            def el(i):
                k = z3.simplify(i)
                if z3.is_int_value(k):
                    return items[k.as_long()]
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = self.ite(i == j, items[j], r)
                return r
            return IterDesc(z3.IntVal(len(items)), el, None)
        if cv.t.k == "seq":
            th = SeqTheory(cv.t.a[0])
            self.seq_types.add(cv.t.a[0])
            if has_ite(cv.x):
                raw_seq, cv = cv, V(cv.t, self.named(cv.x))
            else:
                raw_seq = cv

            def unchanged():
                if place is None:
                    return None
                now = self.read(place)
                return None if now.x.eq(raw_seq.x) else now.x == cv.x
            return IterDesc(th.len(cv.x), lambda i: unpack(cv.t.a[0], th.at(cv.x, i)), cv, unchanged)
        if cv.t.k in ("map", "set"):
            ks, facts = self.enum_keys(cv)

            def unchanged():
                if place is None:
                    return None
                now = self.read(place)
                return None if now.x.dom.eq(cv.x.dom) else now.x.dom == cv.x.dom
            kt = cv.t.a[0]
            d = self.iterate(V(Seq(Ref(kt.a[0]) if kt.k == "id" and len(kt.a) == 2 else kt), ks))
            d.unchanged, d.facts = unchanged, facts
            return d
        h = self.reg.methods.get((cv.t.a[0] if cv.t.k in ("ref", "sort") else cv.t.k, "__iter__"))
        if h is not None:
            return h(self, v, [], {}, None)
        raise Unsupported("iteration over %s at line %d" % (v.t, self.line))

    def enum_keys(self, cv):
        """The keys of a dictionary or set, each once, in some order."""
        kt = cv.t.a[0]
        if kt.k == "id" and len(kt.a) == 2:
            kt = Ref(kt.a[0])
            th = SeqTheory(kt)
            self.seq_types.add(kt)
            ks = const("keys", Seq(kt))
            i, j = z3.Ints("i j")
            x = z3.Const("x", sort_of(kt))
            return ks, [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(ks)), th.at(ks, i) != th.at(ks, j)), patterns=[z3.MultiPattern(th.at(ks, i), th.at(ks, j))]),
                        z3.ForAll([x], th.mem(ks, x) == cv.x.has(x), patterns=[th.mem(ks, x)]), z3.ForAll([x], th.mem(ks, x) == cv.x.has(x), patterns=[cv.x.has(x)])]
        th = SeqTheory(kt)
        self.seq_types.add(kt)
        ks = const("keys", Seq(kt))
        i, j = z3.Ints("i j")
        x = z3.Const("x", sort_of(kt))
        facts = [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(ks)), th.at(ks, i) != th.at(ks, j)), patterns=[z3.MultiPattern(th.at(ks, i), th.at(ks, j))])]
        if kt == Ref("Node"):
            q = z3.Int("q")
            inv = fn(fresh_name("keypos"), z3.IntSort(), z3.IntSort())
            khash = fn(fresh_name("keyhash"), NODE, z3.IntSort())
            facts += [
                z3.ForAll([q], z3.Implies(cv.x.has(q), z3.And(th.mem(ks, cv.x.key(q)), khash(cv.x.key(q)) == q)), patterns=[cv.x.has(q)]),
                z3.ForAll([x], z3.Implies(th.mem(ks, x), z3.And(cv.x.has(khash(x)), cv.x.key(khash(x)) == x)), patterns=[th.mem(ks, x)])]
            nid = self.hget("Node.nid")[0]
            self.prove("keys of a dictionary keep their hash", z3.ForAll([q], z3.Implies(cv.x.has(q), z3.Select(nid, cv.x.key(q)) == q), patterns=[cv.x.has(q)]))
        else:
            has = cv.x.has(x)
            if z3.is_quantifier(has.arg(0)):
                has = z3.simplify(has)
            facts.append(z3.ForAll([x], th.mem(ks, x) == has, patterns=[th.mem(ks, x)]))
            facts.append(z3.ForAll([x], th.mem(ks, x) == has, patterns=[has]))
        return ks, facts

    # ------------------------------------------------------------ loops
    def loop_invs(self, s, fr):
        """Invariant clauses of this loop (by ordinal in the function it belongs to)."""
        if fr.func is self.func:
            ords = front.loops_of(self.func.node)
            n = ords.get(id(s))
            return self.spec.loops.get(n, []), "loop%s" % n
        inl = getattr(self.spec, "inline_loops", {})
        ords = front.loops_of(fr.func.node)
        n = ords.get(id(s))
        return inl.get((fr.func.qual, n), []), "loop%s of %s" % (n, fr.func.qual)

    def dry_run(self, fn, fr):
        """Everything the body may write (heap components, boxes, variables), over all its paths."""
        total = set()
        vals = {}
        chain = self.frames_of(fr)
        # paths are replayed from the start: what a loop may write is the same each time
        key = (self.sub_id, fn.__qualname__, self.line, tuple(self.taken), self._boxid)
        if key in self.dry_cache:
            total, vals, self._boxid = self.dry_cache[key]
            ids = [id(f) for f in chain]
            if self.writes is not None:
                self.writes |= {("var", ids[w[1]], w[2]) if w[0] == "var" else w for w in total}
            return ({("var", ids[w[1]], w[2]) if w[0] == "var" else w for w in total}, {(ids[k[0]], k[1]): v for k, v in vals.items()})
        oldw = self.writes
        self.dry += 1
        out0 = getattr(self, "out", None)
        try:
            base = self._boxid
            while True:
                self._boxid = base
                sn = self.snap()
                fsaved = [(f, dict(f.vars)) for f in chain]
                before = {(id(f), n) for f, vs in fsaved for n in vs}
                self.writes = set()
                self.havoc(total, vals, fr, "dry")
                collected = set()
                frames = self.frames_of(fr)
                ids = {id(f): f for f in frames}

                def go():
                    self.writes = collected
                    try:
                        fn()
                    finally:
                        for w in collected:
                            if w[0] == "var" and w[1] in ids:
                                vals.setdefault((w[1], w[2]), []).append(self.solo(ids[w[1]].vars.get(w[2]), w[2], frames, before))
                outs = self.sub_paths(go, fr, True)
                if out0 is not None:
                    self.out = out0
                self.restore(sn)
                for f, vs in fsaved:
                    f.vars.clear()
                    f.vars.update(vs)
                new = {w for w in collected if (w[0] != "box" or w[1] in self.boxes) and (w[0] != "var" or w[1] in ids)}
                if new <= total:
                    break
                total |= new
            self._boxid = base
        finally:
            self.dry -= 1
            self.writes = oldw
        if self.writes is not None:
            self.writes |= total
        if True:
            pos = {id(f): i for i, f in enumerate(chain)}
            self.dry_cache[key] = ({("var", pos[w[1]], w[2]) if w[0] == "var" else w for w in total if w[0] != "var" or w[1] in pos},
                                   {(pos[k[0]], k[1]): v for k, v in vals.items() if k[0] in pos}, self._boxid)
        return total, vals

    def havoc(self, total, vals, fr, why):
        ids = {id(f): f for f in self.frames_of(fr)}
        known = set(self.boxes)
        for w in sorted(total, key=str):
            if w[0] == "heap":
                if w[1].startswith("alive."):
                    old = self.heap[w[1]][0]
                    self.heap[w[1]] = self.fresh_field(w[1], w[1])
                    o = z3.Const("o", usort(w[1][6:]))
                    new = self.heap[w[1]][0]
                    self.fact(z3.ForAll([o], z3.Implies(z3.Select(old, o), z3.Select(new, o)), patterns=[z3.Select(new, o)]))
                    self.fact(z3.ForAll([o], z3.Implies(z3.Select(old, o), z3.Select(new, o)), patterns=[z3.Select(old, o)]))
                    self.fact(z3.Not(z3.Select(new, null(w[1][6:]))))
                else:
                    self.heap[w[1]] = self.fresh_field(w[1], w[1])
            elif w[0] == "box":
                c = self.boxes.get(w[1])
                if isinstance(c, V):
                    if c.t in (T("emptyseq"), T("emptymap")):
                        t = self.box_type(w[1], vals)
                        if t is None:
                            raise Unsupported("list or dictionary of unknown element type is filled in a loop at line %d" % self.line)
                        c = empty_content(t)
                    if c.t == T("iterbox"):
                        self.boxes[w[1]] = V(c.t, (c.x[0], const("pos", z3.IntSort())))
                        continue
                    self.boxes[w[1]] = fresh("box", c.t)
            elif w[0] == "out":
                self.out = const("out", Seq(self.spec.res[1]))
            elif w[0] == "var":
                f = ids.get(w[1])
                if f is None:
                    continue
                n = w[2]
                pre = f.vars.get(n)
                cands = ([pre] if pre is not None else []) + [x for x in vals.get((w[1], n), []) if x is not None]
                nv = self.join_boxes(n, pre, cands[1:], known, list(ids.values())) or self.join_fresh(n, cands, known)
                if pre is None:
                    f.vars.pop(n, None)
                    if nv.t != UNDEF:
                        pass
                else:
                    f.vars[n] = nv

    def box_type(self, bid, vals):
        return self.boxtypes.get(bid) if hasattr(self, "boxtypes") else None

    def solo(self, v, n, frames, before=None):
        """A container value, marked if the variable n alone refers to it (with the type of its present content)."""
        if v is None or not isinstance(v.x, Loc) or v.x.root[0] != "box" or v.x.path or not isinstance(self.boxes[v.x.root[1]], V):
            return v
        r = V(self.boxes[v.x.root[1]].t, v.x)
        # a variable that had no value before the loop has none after an iteration either (it cannot be read before it is bound again)
        here = [(id(f), k) for f in frames for k, y in f.vars.items() if isinstance(y.x, Loc) and y.x.root == v.x.root and (before is None or k == n or (id(f), k) in before)]
        params = [y for d in (getattr(self, "entry_params", {}), getattr(self, "entry_caps", {})) for y in d.values() if isinstance(y.x, Loc) and y.x.root == v.x.root]
        r.alone = len(here) == 1 and not params and not any(isinstance(b, Loc) and b.root == v.x.root for b in self.boxes.values())
        return r

    def join_boxes(self, n, pre, after, known, frames):
        """A variable that a loop rebinds to containers made in the loop, none of which anything else refers to: some container."""
        if pre is None or not after or not any(isinstance(c.x, Loc) and c.x.root[0] == "box" and c.x.root[1] not in known for c in after):
            return None
        cs = [self.solo(pre, n, frames)] + after
        if not all(getattr(c, "alone", False) for c in cs):
            return None
        ts = {c.t for c in cs}
        empties = {T("emptyseq"), T("emptymap")}
        ts2 = ts - empties
        if len(ts2) != 1:
            return None
        t = ts2.pop()
        if (T("emptyseq") in ts and t.k != "seq") or (T("emptymap") in ts and t.k not in ("map", "set")):
            return None
        return self.new_box(fresh(n, t))

    def join_fresh(self, n, cands, known):
        ts = {v.t for v in cands}
        nullable = any(getattr(v, "nullable", False) for v in cands) or NONE in ts
        ts.discard(NONE)
        if UNDEF in ts:
            return V(UNDEF, None)
        if not ts:
            return NONEV
        if len(ts) > 1:
            if ts <= {INT, REAL}:
                ts = {REAL}
            else:
                return V(UNDEF, None)
        t = ts.pop()
        if t == PY:
            return cands[0] if all(c.x is cands[0].x for c in cands) else V(UNDEF, None)
        if t.k in CONTAINER or t in (T("emptyseq"), T("emptymap"), T("iter")):
            if any(isinstance(c.x, Loc) and c.x.root[0] == "box" and c.x.root[1] not in known for c in cands):
                return V(UNDEF, None)
            locs = {str(self.norm(c).x.root) + str(c.x.path) for c in cands if isinstance(c.x, Loc)}
            if len(locs) == 1 and all(isinstance(c.x, Loc) for c in cands):
                return cands[0]
            return V(UNDEF, None)
        if nullable and t.k not in ("ref",):
            return fresh(n, Opt(t)) if t.k != "opt" else fresh(n, t)
        if t.k == "tup" and any(x.k in CONTAINER or x in (PY, NONE) for x in t.a):
            return V(UNDEF, None)
        v = fresh(n, t)
        v.nullable = nullable
        return v

    def loop_ctx(self, fr, hl, lvars, i=None, seq=None, desc=None):
        c = self.ctx()
        c.v = NS(lambda n: self.local_raw(fr, n))
        c.l = NS(lambda n: raw(lvars[n]))
        c.hl = Heap(self.reg, hl)
        c.i, c.seq, c.desc = i, (seq.x if seq is not None else None), desc
        c.outer = getattr(self, "loop_stack", [])
        if getattr(self, "gen", False):
            c.outl = self.outl_stack[-1] if getattr(self, "outl_stack", None) else None
        return c

    def snapshot_vars(self, fr):
        d = {}
        for f in reversed(self.frames_of(fr)):
            for n, v in f.vars.items():
                try:
                    d[n] = self.read(v) if isinstance(v.x, Loc) else v
                except Unsupported:
                    pass
        return d

    def run_loop(self, s, fr, guard, step, desc):
        """Common part of for and while: desc is an IterDesc or None."""
        invs, lname = self.loop_invs(s, fr)
        if self.spec.loops.get(lname) is not None:
            pass
        hl, lvars = dict(self.heap), self.snapshot_vars(fr)
        outl = getattr(self, "out", None)
        line = s.lineno
        i = z3.IntVal(0) if desc is not None else None
        # which things the loop writes

        def body_once():
            if desc is not None:
                k = const("i", z3.IntSort())
                self.fact(z3.And(k >= 0, k < desc.n))
                step(k)
            else:
                k = None
                if not guard():
                    raise BreakEx()
            with self.inside(k, desc):
                self.block(s.body, fr)
        boxes_before = dict(self.boxes)
        total, vals = self.dry_run(body_once, fr)
        oldstack = getattr(self, "outl_stack", [])
        self.outl_stack = oldstack + [outl]
        self.line = line
        for w in total:
            if w[0] == "box" and isinstance(self.boxes.get(w[1]), V) and self.boxes[w[1]].t in (T("emptyseq"), T("emptymap")) and self.box_type(w[1], vals):
                self.boxes[w[1]] = empty_content(self.box_type(w[1], vals))
        lvars = self.snapshot_vars(fr)
        c = self.loop_ctx(fr, hl, lvars, i, desc.seq if desc else None, desc)
        for n, inv in invs:
            self.prove("%s: %s holds initially" % (lname, n), self.clause(inv, c), line)
        self.havoc(total, vals, fr, lname)
        if desc is not None:
            i = const("i", z3.IntSort())
            self.fact(z3.And(i >= 0, i <= desc.n))
        c = self.loop_ctx(fr, hl, lvars, i, desc.seq if desc else None, desc)
        for n, inv in invs:
            self.fact(self.clause(inv, c))
        # what the body writes is known from its own dry run: inside another dry run it need not be followed again
        known = self.dry > 0 and not any(isinstance(x, (ast.Break, ast.Try)) for x in ast.walk(self.func.node))
        go = (self.choose() if desc is not None else guard()) if not known else False if desc is not None else guard()
        if go and known:
            raise PathEnd()
        if go:
            if desc is not None:
                self.fact(i < desc.n)
                step(i)
            self.cover(lname + " body")
            pre_body = dict(self.heap)
            variant = getattr(self.spec, "variants", {}).get(lname)
            if variant is not None:
                before = variant(self.loop_ctx(fr, hl, lvars, i, None, desc))
            try:
                with self.inside(i, desc):
                    self.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                self.outl_stack = oldstack
                return
            self.line = line
            c = self.loop_ctx(fr, hl, lvars, i + 1 if desc is not None else None, desc.seq if desc else None, desc)
            c.hb = Heap(self.reg, pre_body)
            if variant is not None:
                self.prove("%s: the variant decreases" % lname, z3.And(before >= 0, variant(c) < before), line)
            if desc is not None and desc.unchanged is not None:
                g = desc.unchanged()
                if g is not None:
                    self.prove("%s: the iterated container is not changed" % lname, g, line)
            for n, inv in invs:
                self.prove("%s: %s is preserved" % (lname, n), self.clause(inv, c), line)
            raise PathEnd()
        if desc is not None:
            self.fact(i == desc.n)
        self.outl_stack = oldstack
        self.block(s.orelse, fr)

    @contextlib.contextmanager
    def inside(self, i, desc):
        """The position of the loop whose body runs, for the invariants of the loops in it (c.outer, innermost last)."""
        old = getattr(self, "loop_stack", [])
        o = C()
        o.i, o.seq = i, (desc.seq.x if desc and desc.seq is not None else None)
        self.loop_stack = old + [o]
        try:
            yield
        finally:
            self.loop_stack = old

    def st_While(self, s, fr):
        self.run_loop(s, fr, lambda: self.cond(s.test, fr), None, None)

    def st_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if it.t == PY and isinstance(it.x, GenVal) and self.is_delegation(s):
            self.delegate(it, fr)
            return
        d = self.iterate(it)
        for f in d.facts:
            self.fact(f)
        n = z3.simplify(d.n) if isinstance(d.n, z3.ExprRef) else d.n
        if z3.is_int_value(n) and n.as_long() <= 12:
            for k in range(n.as_long()):
                self.assign(s.target, d.elem(z3.IntVal(k)), fr)
                try:
                    self.block(s.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.block(s.orelse, fr)
            return
        self.run_loop(s, fr, None, lambda i: self.assign(s.target, d.elem(i), fr), d)

    def is_delegation(self, s):
        b = [x for x in s.body if not isinstance(x, ast.Pass)]
        return (len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Yield) and isinstance(b[0].value.value, ast.Name)
                and isinstance(s.target, ast.Name) and b[0].value.value.id == s.target.id and not s.orelse)

    def delegate(self, v, fr):
        if not (v.t == PY and isinstance(v.x, GenVal)):
            raise Unsupported("yield from %s at line %d" % (v.t, self.line))
        if v.x.call["spec"].res[1] != self.spec.res[1] or fr is not self.frame:
            raise Unsupported("delegating to a generator of another type at line %d" % self.line)
        if v.x.call["spec"].views[v.x.call["view"]].get("__yields") != self.spec.views[self.view].get("__yields"):
            raise Unsupported("delegating to a generator that yields another kind of value at line %d" % self.line)
        self.out = self.finish_gen(v.x, self.out)
        if self.writes is not None:
            self.writes.add(("out",))

    def consume(self, g):
        """Runs a generator under contract to its end: the sequence it yields."""
        t = g.call["spec"].res[1]
        if g.call["spec"].views[g.call["view"]].get("__yields"):
            raise Unsupported("values of this generator are consumed at line %d" % self.line)
        self.seq_types.add(t)
        return V(Seq(t), self.finish_gen(g, SeqTheory(t).empty))

    def finish_gen(self, g, out0):
        t = g.call["spec"].res[1]
        self.seq_types.add(t)
        out = const("yielded", Seq(t))
        self.apply_contract(g.call, out0, out)
        return out

    # ------------------------------------------------------------ calls
    def ex_Call(self, e, fr):
        line = e.lineno
        # super().method(...)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and fr.find("super") is None:
            f = fr
            while f.func is None or f.func.cls is None:
                f = f.parent
            base = None
            for b in f.func.cls.bases:
                r = front.lookup(f.func.cls.mod, b.split(".")[-1])
                if r and r[0] == "class":
                    base = r[1]
            if base is None:
                raise Unsupported("super() at line %d" % line)
            return pyv(Super(base, fr.find("self").vars["self"]))
        fv = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                v = self.read(v) if isinstance(v.x, Loc) else v
                if v.t.k == "tup":
                    args += list(v.x)
                    continue
                args.append(V(T("star"), v))
                continue
            args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs["**"] = self.eval(k.value, fr)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.line = line
        return self.call_value(fv, args, kwargs, e, fr)

    def call_value(self, fv, args, kwargs, e, fr):
        if fv.t.k == "fun":
            return fv.x(self, args)
        if fv.t != PY:
            h = self.reg.methods.get((fv.t.a[0] if fv.t.k in ("ref", "sort") else fv.t.k, "__call__"))
            if h is not None:
                return h(self, fv, args, kwargs, e)
            raise Unsupported("call of a %s at line %d" % (fv.t, self.line))
        f = fv.x
        if isinstance(f, Builtin):
            if f.recv is not None:
                return self.method(f.recv, f.name, args, kwargs, e, fr)
            return self.builtin(f.name, args, kwargs, e, fr)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs, e)
        if isinstance(f, LambdaVal):
            return self.call_lambda(f, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f.cls, args, kwargs, e)
        if isinstance(f, ModuleVal):
            h = self.reg.externs.get(f.name)
            if h is None:
                raise Unsupported("call of %s, which has no assumed contract (line %d)" % (f.name, self.line))
            return h(self, args, kwargs, e)
        if callable(f):
            return f(self, args, kwargs)
        raise Unsupported("call at line %d" % self.line)

    def call_lambda(self, f, args, kwargs):
        sub = Frame(front.Func(f.mod, "<lambda>", ast.parse("def f(): pass").body[0]), f.frame)
        a = f.node.args
        names = [x.arg for x in a.args]
        for n, v in zip(names, args):
            sub.vars[n] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in sub.vars:
                sub.vars[n] = kwargs[n] if n in kwargs else self.eval(d, f.frame)
        sub.vars.update({k: v for k, v in kwargs.items() if k in names})
        return self.eval(f.node.body, sub)

    def bind(self, f, args, kwargs):
        a = f.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        if f.bound is not None and "staticmethod" not in f.func.decorators:
            args = [f.bound] + list(args)
        kwargs = dict(kwargs)
        rest = list(args)
        for n in names:
            if rest and rest[0].t != T("star"):
                bound[n] = rest.pop(0)
        if len(rest) == 1 and rest[0].t == T("star") and a.vararg and all(n in bound for n in names):
            # f(*xs) for a function that takes any number of arguments: they are the elements of xs
            bound[a.vararg.arg] = self.to_seq(rest.pop().x)
            star_given = True
        else:
            star_given = False
        if any(x.t == T("star") for x in rest):
            raise Unsupported("call with * of a list at line %d" % self.line)
        if rest:
            if not a.vararg:
                raise PyRaise("TypeError", self.line)
        if a.vararg and not star_given:
            bound[a.vararg.arg] = V(Tup(*[x.t for x in rest]), rest)
        star = kwargs.pop("**", None)
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise("TypeError", self.line)
        if a.kwarg:
            if star is not None and not extra:
                bound[a.kwarg.arg] = star
            elif star is None:
                bound[a.kwarg.arg] = pyv(extra) if extra else V(T("emptymap"), None)
            else:
                raise Unsupported("** at line %d" % self.line)
        elif star is not None:
            raise Unsupported("** at line %d" % self.line)
        dfr = f.frame or Frame(front.Func(f.func.mod, "<module>", ast.parse("def f(): pass").body[0]))
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in bound:
                bound[n] = self.eval_default(d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bound and d is not None:
                bound[x.arg] = self.eval_default(d, dfr)
        for n in names:
            if n not in bound:
                raise PyRaise("TypeError", self.line)
        return bound

    def eval_default(self, d, fr):
        return self.eval(d, fr)

    def call_func(self, f, args, kwargs, e):
        line = self.line
        if f.bound is None and f.func.cls is not None and "classmethod" in f.func.decorators:
            f = FuncVal(f.func, f.frame, pyv(ClassVal(f.func.cls)))
        sid = f.func.mod.path + ":" + f.func.qual
        spec = self.reg.specs.get(sid)
        bound = self.bind(f, args, kwargs)
        self.line = line
        if spec is not None and not getattr(spec, "inline", False) and not (spec is self.spec and getattr(self, "inline_self", False)):
            return self.call_spec(spec, f, bound)
        # no contract: the body is inlined
        depth = getattr(self, "depth", 0)
        if depth > 25:
            raise Unsupported("recursion without a contract: %s" % sid)
        if f.func.is_generator:
            raise Unsupported("generator %s has no contract (line %d)" % (sid, line))
        sub = Frame(f.func, f.frame)
        sub.vars.update(bound)
        self.depth = depth + 1
        try:
            self.block(f.func.node.body, sub)
            r = NONEV
        except ReturnEx as ex:
            r = ex.v
        finally:
            self.depth = depth
            self.line = line
        return r

    def call_spec(self, spec, f, bound):
        self.used_specs.add(spec.id)
        # the view whose overrides fit these arguments
        view = None
        for vn, over in spec.views.items():
            ok = True
            for n in list(spec.params) + list(over):
                if n in ("return", "__yields"):
                    continue
                a = bound.get(n)
                if a is None:
                    ok = False
                    break
                if n in over and over[n] is None:
                    ok &= a.t == NONE
                elif n in over and isinstance(over[n], T):
                    ok &= self.fits(a, over[n], n in spec.nullable)
                elif n in over:
                    ok &= getattr(a, "lit", a.x) == over[n] or (a.t == PY and a.x == over[n])
                else:
                    ok &= self.fits(a, spec.params[n], n in spec.nullable)
            if ok:
                view = vn
                break
        if view is None:
            raise Unsupported("no view of %s fits the arguments %s at line %d" % (spec.id, {k: str(v.t) for k, v in bound.items()}, self.line))
        call = {"spec": spec, "view": view, "bound": bound, "frame": f.frame, "line": self.line}
        if isinstance(spec.res, tuple):
            return pyv(GenVal(call))
        return self.apply_contract(call)

    def fits(self, a, t, nullable):
        if a.t == t:
            return True
        if a.t == NONE:
            return nullable or t.k == "opt"
        if isinstance(a.x, Loc):
            c = self.read(a)
            return c.t == t or (c.t == T("emptyseq") and t.k == "seq") or (c.t == T("emptymap") and t.k in ("map", "set")) or t == VAL
        if a.t.k == "tup" and t.k == "seq":
            return True
        if a.t in (T("emptyseq"),) and t.k == "seq":
            return True
        if a.t in (T("emptymap"),) and t.k == "map":
            return True
        if t.k == "opt":
            return self.fits(a, t.a[0], False)
        if t == VAL:
            return a.t in (STR, INT, REAL, BOOL, VAL)
        if t == REAL and a.t == INT:
            return True
        return a.t == PY and ("coerce:" + mangle(t)) in self.reg.externs

    def apply_contract(self, call, out0=None, out=None):
        spec, view, bound = call["spec"], call["view"], call["bound"]
        self.line = call["line"]
        over = spec.views[view]
        entry, places = {}, {}
        for n, t in list(spec.params.items()):
            a = bound.get(n)
            if n in over and not isinstance(over[n], T):
                entry[n] = a
                continue
            t = over.get(n, t)
            if isinstance(a.x, Loc):
                if t.k in CONTAINER and self.read(a).t in (T("emptyseq"), T("emptymap")):
                    self.retype(a, empty_content(t))
                places[n] = a
            if a.t.k == "ref" and getattr(a, "nullable", False) and n not in spec.nullable:
                self.prove("call of %s: argument %s is not None" % (spec.qual, n), a.x != null(a.t.a[0]))
            entry[n] = self.coerce(a, t)
        for n, v in over.items():
            if n not in entry and n in bound:
                entry[n] = bound[n]
        caps, capv = {}, {}
        for n, t in spec.captures.items():
            fr = call["frame"].find(n) if call["frame"] else None
            if fr is None:
                raise Unsupported("captured variable %s of %s not found" % (n, spec.id))
            caps[n] = fr.vars[n]
            if isinstance(caps[n].x, Loc) and self.read(caps[n]).t in (T("emptyseq"), T("emptymap")):
                self.retype(caps[n], empty_content(t))
            capv[n] = self.coerce(caps[n], t)
        if getattr(self.spec, "name_calls", False) and spec.pure is None:
            # composite terms in the patterns of the callee's clauses defeat the solver's matching: give them names
            nm = lambda x: x if z3.is_const(x) else self.named(x)
            for k, v in self.heap.items():
                self.heap[k] = [nm(x) for x in v]
            for vs in (entry, capv):
                for n, v in vs.items():
                    if v.t.k in CONTAINER and not isinstance(v.x, Loc):
                        vs[n] = rebuild(v, [nm(x) for x in terms_of(v)])
        hpre = dict(self.heap)
        gp = {}
        if spec.ghost_params:
            supplier = self.spec.ghost_args.get(spec.qual)
            if supplier is None:
                raise Unsupported("no ghost arguments for %s" % spec.qual)
            gp = supplier(self.ctx_at())
        c = C()
        c.ex, c.view = self, view
        c.p = NS(lambda n: raw(entry[n]))
        c.o = NS(lambda n: raw(self.read(places[n])) if n in places else raw(entry[n]))
        c.cap = NS(lambda n: raw(capv[n]))
        c.capo = NS(lambda n: raw(self.read(caps[n])))
        c.h0 = Heap(self.reg, hpre)
        c.h = c.h0
        c.gp = NS(lambda n: raw(gp[n]))
        c.given = lambda n: entry[n].t != NONE
        c.pv = lambda n: entry[n]
        c.out0, c.out = out0, out
        hint = getattr(self.spec, "call_hints", {}).get(spec.qual)
        if hint is not None:
            # an instance of an induction axiom, for the state at the call
            hc = self.ctx_at()
            hc.call = c.p
            self.fact(self.clause(hint, hc))
        for n, r in spec.requires if self.dry == 0 else ():
            self.prove("call of %s: requires %s" % (spec.qual, n), self.clause(r, c))
        for exc, cond in spec.raises.items():
            if self.branch(self.clause(cond, c)):
                raise PyRaise(exc, self.line)
        for exc in spec.may_raise:
            if self.choose():
                raise PyRaise(exc, self.line)
        if spec.pure is not None:
            r = spec.pure(c)
            return r if isinstance(r, V) else V(over.get("return", spec.res), r)
        for m in spec.modifies:
            if m.startswith("param:"):
                n = m[6:]
                if n in places:
                    self.write(places[n], fresh(n, entry[n].t))
            elif m.startswith("cap:"):
                n = m[4:]
                self.write(caps[n], fresh(n, capv[n].t))
            elif m.startswith("alloc:"):
                self.havoc({("heap", "alive." + m[6:])}, {}, None, "call")
                if self.writes is not None:
                    self.writes.add(("heap", "alive." + m[6:]))
            else:
                self.hset(m, self.fresh_field(m, m))
        c.h = Heap(self.reg, self.heap)
        ghosts = {n: fresh("gh_" + n, t) for n, (t, _) in spec.ghost.items()}
        c.g = NS(lambda n: raw(ghosts[n]))
        if ghosts:
            self.call_ghosts = dict(getattr(self, "call_ghosts", {}), **{spec.qual: ghosts})
        rt = over.get("return", spec.res)
        res = NONEV
        if not isinstance(rt, tuple) and rt != NONE:
            res = fresh("res_" + spec.qual.split(".")[-1], rt)
            if rt.k == "ref" and spec.nullable_res:
                res.nullable = True
            c.res, c.resv = raw(res), res
        # (a dry run only collects what is written: it may follow more paths than there are)
        for n, en in spec.ensures if self.dry == 0 else ():
            self.fact(self.clause(en, c))
        if res.t.k in CONTAINER:
            return self.new_box(res)
        return res

    def ctx_at(self):
        c = self.ctx()
        fr = self.frame
        c.v = NS(lambda n: self.local_raw(getattr(self, "frame_sub", None) or fr, n))
        return c

    # ------------------------------------------------------------ objects
    def alloc(self, cls):
        o = const("new" + cls, usort(cls))
        key = "alive." + cls
        a = self.hget(key)[0]
        self.fact(z3.Not(z3.Select(a, o)))
        self.fact(o != null(cls))
        self.hset(key, [z3.Store(a, o, z3.BoolVal(True))])
        return V(Ref(cls), o)

    def instantiate(self, cls, args, kwargs, e):
        name = None
        for n, (file, py) in self.reg.classes.items():
            if py == cls.name and file == cls.mod.path:
                name = n
        if name is None:
            h = self.reg.externs.get("new:" + cls.name)
            if h is not None:
                return h(self, args, kwargs, e)
            raise Unsupported("instances of %s at line %d" % (cls.name, self.line))
        o = self.alloc(name)
        m = self.find_method(cls, "__init__")
        if m is not None:
            self.call_func(FuncVal(m, None, o), args, kwargs, e)
        return o

    # ------------------------------------------------------------ builtins and methods
    def ext_method(self, recv, name, args, kwargs, e):
        t = recv.t
        k = t.a[0] if t.k in ("ref", "sort") else t.k
        h = self.reg.methods.get((k, name))
        if h is not None:
            return h(self, recv, args, kwargs, e)
        raise Unsupported("method %s of %s at line %d" % (name, t, self.line))

    def method(self, recv, name, args, kwargs, e, fr):
        cv = self.read(recv) if isinstance(recv.x, Loc) else recv
        t = cv.t
        k = t.a[0] if t.k in ("ref", "sort") else t.k
        if (k, name) in self.reg.methods:
            return self.reg.methods[(k, name)](self, recv, args, kwargs, e)
        if t.k == "seq" or t == T("emptyseq"):
            if name == "append":
                self.seq_append(recv, args[0])
                return NONEV
            if name == "extend":
                self.seq_extend(recv, args[0] if not (args[0].t == PY and isinstance(args[0].x, tuple) and args[0].x[0] == "genexp") else self.comp(args[0].x[1], args[0].x[2], "list"))
                return NONEV
            if name == "copy":
                return self.new_box(cv)
            if name == "pop" and t.k == "seq" and not args:
                th = SeqTheory(t.a[0])
                n = th.len(cv.x)
                if not self.branch(n > 0):
                    raise PyRaise("IndexError", self.line)
                x = unpack(t.a[0], th.at(cv.x, n - 1))
                r = const("popped", t)
                self.fact(th.app(r, pack(x)) == cv.x)
                self.fact(th.len(r) == n - 1)
                self.write(recv, V(t, r))
                return x
        if t.k in ("map",) or t == T("emptymap"):
            if name in ("get", "pop", "setdefault") and t.k == "map":
                kt, obj = self.key_of(cv, args[0])
                vt = t.a[1]
                d = args[1] if len(args) > 1 else NONEV
                if name == "get":
                    if vt.k == "ref" and (d.t == NONE or d.t == vt):
                        dv = self.coerce(d, vt)
                        r = V(vt, self.named(z3.If(cv.x.has(kt), cv.x.get(kt), dv.x)))
                        r.nullable = d.t == NONE
                        return r
                    if self.branch(cv.x.has(kt)):
                        return unpack(vt, cv.x.get(kt))
                    return d
            if name == "get" and t == T("emptymap"):
                return args[1] if len(args) > 1 else NONEV
            if name == "items":
                if t == T("emptymap"):
                    return pyv(("iterdesc", IterDesc(z3.IntVal(0), lambda i: NONEV)))
                d = self.iterate(recv)
                old = d.elem

                def pair(i):
                    k2 = old(i)
                    cur = self.read(recv)
                    kt2 = z3.Select(self.hget("Node.nid")[0], k2.x) if t.a[0] == Ref("Node") else pack(k2)
                    vt = t.a[1]
                    if vt.k in CONTAINER and isinstance(recv.x, Loc):
                        val = V(vt, Loc(recv.x.root, recv.x.path + (kt2,)))
                    else:
                        val = unpack(vt, cur.x.get(kt2))
                    return V(Tup(k2.t, val.t), [k2, val])
                return pyv(("iterdesc", IterDesc(d.n, pair, d.seq, d.unchanged, d.facts)))
            if name == "keys":
                return recv
            if name == "values":
                d = self.iterate(recv)
                old = d.elem
                return pyv(("iterdesc", IterDesc(d.n, lambda i: unpack(t.a[1], self.read(recv).x.get(pack(old(i)) if t.a[0] != Ref("Node") else z3.Select(self.hget("Node.nid")[0], old(i).x))), d.seq, d.unchanged, d.facts)))
            if name == "copy":
                return self.new_box(cv)
            if name == "update" and t.k == "map" and args and args[0].t.k in ("map",):
                o = self.read(args[0])
                kk = z3.Const("k", keysort(t.a[0]))
                self.write(recv, V(t, MapC(z3.Lambda([kk], z3.Or(cv.x.has(kk), o.x.has(kk))), z3.Lambda([kk], z3.If(o.x.has(kk), o.x.get(kk), cv.x.get(kk))))))
                return NONEV
        if t.k == "set" or t == T("emptymap"):
            if name == "add":
                self.set_add(recv, args[0])
                return NONEV
            if name in ("union", "intersection") and len(args) == 1 and args[0].t == T("star"):
                return self.set_of_lists(cv, self.to_seq(args[0].x), name)
            if name in ("union", "intersection", "difference", "symmetric_difference") and len(args) == 1:
                op = {"union": ast.BitOr(), "intersection": ast.BitAnd(), "difference": ast.Sub(), "symmetric_difference": ast.BitXor()}[name]
                o = args[0]
                if self.read(o).t.k == "seq":
                    o = self.set_of_seq(o)
                return self.binop(op, recv, o, fr)
            if name == "copy":
                return self.new_box(cv)
        if t == STR:
            h = self.reg.methods.get(("str", name))
            if h is not None:
                return h(self, recv, args, kwargs, e)
            r = self.str_method(name, recv, args) if not kwargs else None
            if r is not None:
                return r
        return self.ext_method(recv, name, args, kwargs, e)

    def builtin(self, name, args, kwargs, e, fr):
        if name in cops.NAMES:
            return cops.call(self, name, args, e)
        h = self.reg.externs.get("builtin:" + name)
        if h is not None:
            r = h(self, args, kwargs, e)
            if r is not None:
                return r
        a = args[0] if args else None
        if name == "len":
            if getattr(a, "lit", None) is not None:
                return V(INT, z3.IntVal(len(a.lit)))
            if a.t.k == "ref":
                c = self.get_class(a.t.a[0])
                m = self.find_method(c, "__len__") if c else None
                if m is not None:
                    return self.call_func(FuncVal(m, None, a), [], {}, e)
                return self.ext_method(a, "__len__", [], {}, e)
            cv = self.read(a) if isinstance(a.x, Loc) else a
            if cv.t.k in ("map", "set"):
                ks, facts = self.enum_keys(cv)
                for f in facts:
                    self.fact(f)
                return V(INT, SeqTheory(cv.t.a[0]).len(ks))
            return V(INT, self.len_term(a))
        if name == "id":
            if a.t.k != "ref":
                raise Unsupported("id of %s at line %d" % (a.t, self.line))
            return V(Id(a.t.a[0]), a.x)
        if name == "bool":
            return V(BOOL, self.truth(a)) if args else V(BOOL, z3.BoolVal(False))
        if name == "isinstance":
            return V(BOOL, self.isinstance_(a, args[1]))
        if name == "list":
            if not args:
                return self.new_box(V(T("emptyseq"), None))
            if a.t == PY and isinstance(a.x, tuple) and a.x[0] == "genexp":
                return self.comp(a.x[1], a.x[2], "list")
            return self.new_box(self.to_seq_facts(a))
        if name == "tuple":
            if not args:
                return V(Tup(), [])
            if a.t.k == "tup":
                return a
            if a.t == PY and isinstance(a.x, tuple) and a.x[0] == "genexp":
                return self.read(self.comp(a.x[1], a.x[2], "list"))
            return self.to_seq_facts(a)
        if name == "dict" and not args and not kwargs:
            return self.new_box(V(T("emptymap"), None))
        if name == "set":
            if not args:
                return self.new_box(V(T("emptymap"), None))
            if a.t == PY and isinstance(a.x, tuple) and a.x[0] == "genexp":
                return self.comp(a.x[1], a.x[2], "set")
            cv = self.read(a) if isinstance(a.x, Loc) else a
            if cv.t.k == "set":
                return self.new_box(cv)
            return self.set_of_seq(self.to_seq_facts(a))
        if name == "sorted":
            return self.sorted_(a, kwargs)
        if name == "enumerate":
            d = self.iterate(a)
            st = kwargs.get("start") or (args[1] if len(args) > 1 else None)
            off = st.x if st is not None else z3.IntVal(0)
            return pyv(("iterdesc", IterDesc(d.n, lambda i: V(Tup(INT, d.elem(i).t), [V(INT, i + off), d.elem(i)]), d.seq, d.unchanged, d.facts)))
        if name == "zip":
            ds = [self.iterate(x) for x in args]
            n = ds[0].n
            for d in ds[1:]:
                n = z3.If(d.n < n, d.n, n)

            def el(i):
                vs = [d.elem(i) for d in ds]
                return V(Tup(*[v.t for v in vs]), vs)

            def unch():
                gs = [d.unchanged() for d in ds if d.unchanged]
                gs = [g for g in gs if g is not None]
                return z3.And(*gs) if gs else None
            return pyv(("iterdesc", IterDesc(n, el, ds[0].seq, unch, [f for d in ds for f in d.facts])))
        if name == "range":
            lo, hi = (z3.IntVal(0), a.x) if len(args) == 1 else (a.x, args[1].x)
            if len(args) == 3:
                raise Unsupported("range with a step at line %d" % self.line)
            return pyv(("iterdesc", IterDesc(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda i: V(INT, lo + i))))
        if name in ("all", "any"):
            if a.t == PY and isinstance(a.x, tuple) and a.x[0] == "genexp":
                return self.quantified(a.x, name == "all")
            ge = ast.parse("(z for z in y)").body[0].value
            sub = Frame(fr.func, fr)
            sub.vars["y"] = a
            ast.copy_location(ge, e)
            return self.quantified(("genexp", ge, sub), name == "all")
        if name == "sum":
            return self.sum_(a, args, e)
        if name == "iter":
            cv = self.to_seq(a)
            if cv.t == T("emptyseq"):
                cv = None
            b = self.new_box(V(T("iterbox"), (cv, z3.IntVal(0))))
            return V(T("iter"), b.x)
        if name == "next":
            return self.next_(args)
        if name in ("min", "max"):
            return self.minmax(name, args, kwargs, e)
        if name == "str":
            if a.t == STR:
                return a
            return V(STR, fn("str_of_" + mangle(a.t), sort_of(a.t), usort("Str"))(pack(a))) if a.t.k in ("int", "real", "val", "ref", "sort", "bool") else V(STR, const("str", STR))
        if name in ("repr", "print", "type", "getattr", "hash", "abs", "int", "float", "round", "callable", "eval", "reversed", "map", "filter"):
            if name == "abs" and a.t in (INT, REAL):
                return V(a.t, z3.If(a.x < 0, -a.x, a.x))
            if name == "int" and a.t == INT:
                return a
            if name == "getattr" and len(args) == 2 and getattr(args[1], "lit", None):
                return self.get_attr(a, args[1].lit)
            if name == "callable":
                return V(BOOL, z3.BoolVal(a.t.k == "fun" or (a.t == PY and isinstance(a.x, (FuncVal, LambdaVal, Builtin)))))
            if name == "hash" and a.t.k == "ref":
                c = self.get_class(a.t.a[0])
                m = self.find_method(c, "__hash__") if c else None
                if m is not None:
                    return self.call_func(FuncVal(m, None, a), [], {}, e)
            if name == "hash" and a.t.k in ("sort", "val", "str"):
                return V(INT, fn("hash_" + mangle(a.t), sort_of(a.t), z3.IntSort())(a.x))
            if name == "repr":
                return V(STR, const("repr", STR))
            if name == "print":
                return NONEV
        raise Unsupported("builtin %s at line %d" % (name, self.line))

    def to_seq_facts(self, v):
        if v.t == PY and isinstance(v.x, tuple) and v.x and v.x[0] == "iterdesc":
            d = v.x[1]
            for f in d.facts:
                self.fact(f)
            i = z3.Int(fresh_name("ix"))
            el = d.elem(i)
            et = el.t
            th = SeqTheory(et)
            self.seq_types.add(et)
            r = const("listed", Seq(et))
            self.fact(th.len(r) == d.n)
            j = z3.Int("j")
            self.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < d.n), th.at(r, j) == z3.substitute(pack(el), (i, j))), patterns=[th.at(r, j)]))
            return V(Seq(et), r)
        c = self.read(v) if isinstance(v.x, Loc) else v
        if c.t.k in ("map", "set"):
            ks, facts = self.enum_keys(c)
            for f in facts:
                self.fact(f)
            return V(Seq(c.t.a[0]), ks)
        return self.to_seq(v)

    def sum_(self, a, args, e):
        if a.t == PY and isinstance(a.x, tuple) and a.x[0] == "genexp":
            g = a.x[1]
            if isinstance(g.elt, ast.Constant) and g.elt.value == 1 and not g.generators[0].ifs:
                d = self.iterate(self.eval(g.generators[0].iter, a.x[2]))
                for f in d.facts:
                    self.fact(f)
                return V(INT, d.n)
        h = self.reg.externs.get("builtin:sum_seq")
        if h is not None:
            return h(self, a, args, e)
        raise Unsupported("sum at line %d" % self.line)

    def isinstance_(self, a, cls):
        def one(c):
            if c.t.k == "tup":
                return z3.Or(*[one(x) for x in c.x])
            if c.t != PY:
                raise Unsupported("isinstance at line %d" % self.line)
            name = c.x.name if isinstance(c.x, (Builtin, ModuleVal)) else c.x.cls.name if isinstance(c.x, ClassVal) else None
            h = self.reg.externs.get("builtin:isinstance_term")
            if h is not None:
                r = h(self, a, name, c)
                if r is not None:
                    return r
            if a.t.k == "ref":
                py = self.reg.classes[a.t.a[0]][1] if a.t.a[0] in self.reg.classes else a.t.a[0]
                yes = py == name
                if not yes and isinstance(c.x, ClassVal):
                    cl = self.get_class(a.t.a[0])
                    yes = cl is not None and self.is_subclass(cl, c.x.cls)
                return a.x != null(a.t.a[0]) if yes else z3.BoolVal(False)
            kind = {"int": "int", "bool": "bool", "real": "float", "str": "str", "seq": "list", "emptyseq": "list", "map": "dict", "emptymap": "dict", "set": "set", "tup": "tuple", "snoc": "tuple"}.get(a.t.k)
            if a.t == NONE:
                return z3.BoolVal(False)
            if kind is None:
                if a.t == PY and isinstance(a.x, (FuncVal, LambdaVal)):
                    return z3.BoolVal(name in ("Callable", "typing.Callable", "collections.abc.Callable"))
                raise Unsupported("isinstance of %s at line %d" % (a.t, self.line))
            if kind == "bool" and name == "int":
                return z3.BoolVal(True)
            if kind == "list" and name in ("tuple",) and not isinstance(a.x, Loc):
                raise Unsupported("isinstance of an immutable sequence at line %d" % self.line)
            return z3.BoolVal(kind == name)
        return one(cls)

    def is_subclass(self, c, d):
        if c.name == d.name:
            return True
        for b in c.bases:
            r = front.lookup(c.mod, b.split(".")[-1])
            if r and r[0] == "class" and self.is_subclass(r[1], d):
                return True
        return False

    def next_(self, args):
        it = args[0]
        if it.t != T("iter"):
            raise Unsupported("next of %s at line %d" % (it.t, self.line))
        b = it.x.root[1]
        cur = self.boxes[b]
        seq, pos = cur.x
        if seq is None:
            if len(args) > 1:
                return args[1]
            raise PyRaise("StopIteration", self.line)
        th = SeqTheory(seq.t.a[0])
        more = pos < th.len(seq.x)
        if self.writes is not None:
            self.writes.add(("box", b))
        if len(args) > 1 and args[1].t == NONE and seq.t.a[0].k == "ref":
            self.boxes[b] = V(T("iterbox"), (seq, z3.If(more, pos + 1, pos)))
            r = V(seq.t.a[0], self.named(z3.If(more, th.at(seq.x, pos), null(seq.t.a[0].a[0]))))
            r.nullable = True
            return r
        if self.branch(more):
            self.boxes[b] = V(T("iterbox"), (seq, pos + 1))
            return unpack(seq.t.a[0], th.at(seq.x, pos))
        if len(args) > 1:
            return args[1]
        raise PyRaise("StopIteration", self.line)

    def minmax(self, name, args, kwargs, e):
        if len(args) >= 2 and not kwargs and all(a.t in (INT, REAL) for a in args):
            r = args[0]
            for a in args[1:]:
                if a.t != r.t:
                    a, r = self.coerce(a, REAL), self.coerce(r, REAL)
                r = V(r.t, z3.If(a.x < r.x if name == "min" else a.x > r.x, a.x, r.x))
            return r
        raise Unsupported("%s at line %d" % (name, self.line))

    # sorting
    def less_term(self, et, keyf, x, y):
        """x < y under the sort key, as a term over the heap; evaluated on a pristine heap to name the order."""
        def go():
            if keyf is None or keyf.t == NONE:
                return V(BOOL, self.order(ast.Lt(), x, y))
            kx = self.call_value(keyf, [x], {}, None, self.frame)
            ky = self.call_value(keyf, [y], {}, None, self.frame)
            return V(BOOL, self.order(ast.Lt(), kx, ky))
        return self.merge_eval(go, self.frame, "sort key").x

    def sort_symbol(self, et, keyf):
        """(function symbol, heap components it reads, less) for the order this key induces."""
        key = (et, id(keyf.x) if keyf is not None and keyf.t != NONE else None, self.view)
        saved = dict(self.heap)
        self.make_pristine()
        pr = self.pristine
        px, py_ = z3.Const("sort_x", sort_of(et)), z3.Const("sort_y", sort_of(et))
        self.heap = dict(pr)
        n0 = self.snap()
        if et.k == "ref":
            self.fact(px != null(et.a[0]))
            self.fact(py_ != null(et.a[0]))
        try:
            lt = z3.simplify(self.less_term(et, keyf, unpack(et, px), unpack(et, py_)))
        finally:
            self.restore(n0)
            self.heap = saved
        return self.symbol_for(et, lt, px, py_)

    def symbol_for(self, et, lt, px, py_):
        comps = []
        cs = {c.decl().name(): c for c in consts_in(lt)}
        for k, v in (getattr(self, "pristine", None) or {}).items():
            for i, a in enumerate(v):
                if a.decl().name() in cs:
                    comps.append((k, i, a))
        comps.sort(key=lambda z: (z[0], z[1]))
        captured = sorted([c for n, c in cs.items() if "!" in n], key=str)
        if captured:
            raise Unsupported("sort key depends on local values at line %d" % self.line)
        name = "sorted_" + mangle(et) + "_" + hashlib.sha1(lt.sexpr().encode()).hexdigest()[:10]
        S = sort_of(Seq(et))
        f = fn(name, *([S] + [a.sort() for _, _, a in comps] + [S]))
        return f, comps, (lt, px, py_)

    def spec_sort(self, et, keyfn):
        """The sorting symbol of a key given by a contract: keyfn(component name -> pristine array, element term) -> V."""
        self.make_pristine()
        px, py_ = z3.Const("sort_x", sort_of(et)), z3.Const("sort_y", sort_of(et))
        h = lambda k: self.pristine[k][0]
        saved = dict(self.heap)
        self.heap = dict(self.pristine)
        n0 = self.snap()
        try:
            lt = z3.simplify(self.merge_eval(lambda: V(BOOL, self.order(ast.Lt(), keyfn(h, px), keyfn(h, py_))), self.frame, "sort key").x)
        finally:
            self.restore(n0)
            self.heap = saved
        return self.symbol_for(et, lt, px, py_)

    def make_pristine(self):
        if getattr(self, "pristine", None) is None:
            self.pristine = {k: [z3.Const("pristine_%s_%d" % (k, i), a.sort()) for i, a in enumerate(v)] for k, v in self.heap.items()}

    def apply_sorted(self, et, f, comps, lt, s, heap):
        arrs = [heap[k][i] for k, i, _ in comps]
        r = f(s, *arrs)
        th = SeqTheory(et)
        self.seq_types.add(et)
        l, px, py_ = lt
        l = z3.substitute(l, *[(a, heap[k][i]) for k, i, a in comps]) if comps else l
        i, j = z3.Ints("i j")
        x = z3.Const("x", sort_of(et))
        FA, A, Imp = z3.ForAll, z3.And, z3.Implies
        fs = [th.len(r) == th.len(s),
              FA([x], th.mem(r, x) == th.mem(s, x), patterns=[th.mem(r, x)]),
              FA([x], th.mem(r, x) == th.mem(s, x), patterns=[th.mem(s, x)]),
              FA([i, j], Imp(A(0 <= i, i < j, j < th.len(r)), z3.Not(z3.substitute(l, (px, th.at(r, j)), (py_, th.at(r, i))))), patterns=[z3.MultiPattern(th.at(r, i), th.at(r, j))])]
        dist = lambda z: FA([i, j], Imp(A(0 <= i, i < j, j < th.len(z)), th.at(z, i) != th.at(z, j)), patterns=[z3.MultiPattern(th.at(z, i), th.at(z, j))])
        # a permutation of a list without repetitions has none
        fs.append(z3.Implies(dist(s), dist(r)))
        if self.spec.occ:
            fs.append(FA([x], th.occ(r, th.len(r), x) == th.occ(s, th.len(s), x), patterns=[th.occ(r, th.len(r), x)]))
            fs.append(FA([x], th.occ(r, th.len(r), x) == th.occ(s, th.len(s), x), patterns=[th.occ(s, th.len(s), x)]))
        return r, fs

    def sorted_(self, a, kwargs):
        for k in kwargs:
            if k not in ("key",):
                raise Unsupported("sorted(%s=) at line %d" % (k, self.line))
        if a.t == PY and isinstance(a.x, tuple) and a.x[0] == "genexp":
            a = self.comp(a.x[1], a.x[2], "list")
        v = self.to_seq_facts(a)
        if v.t == T("emptyseq"):
            return self.new_box(v)
        et = v.t.a[0]
        f, comps, lt = self.sort_symbol(et, kwargs.get("key"))
        r, fs = self.apply_sorted(et, f, comps, lt, v.x, self.heap)
        for x in fs:
            self.fact(x)
        return self.new_box(V(v.t, r))


class Super:
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


def _peek():
    from . import core
    return core._cnt[0]


def has_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_app_of(t, z3.Z3_OP_ITE) or any(has_ite(x, seen) for x in t.children())


def consts_in(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


BUILTINS = cops.NAMES | {"len", "globals", "locals", "id", "bool", "isinstance", "issubclass", "list", "tuple", "dict", "set", "sorted", "enumerate", "zip", "range", "all", "any", "sum", "iter", "next", "min", "max",
            "str", "repr", "print", "type", "getattr", "hash", "abs", "int", "float", "round", "callable", "eval", "reversed", "map", "filter", "super", "Exception", "ValueError",
            "KeyError", "IndexError", "TypeError", "AttributeError", "NotImplemented", "open", "object", "hasattr", "frozenset"}
