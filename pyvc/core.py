"""Types, values and the theory of sequences used by the verification-condition generator."""
import z3

_multipattern = z3.MultiPattern


def _keep_alive(*args):
    # z3py's MultiPattern drops its references to temporaries before the pattern holds them: keep them here meanwhile
    return _multipattern(*args)


z3.MultiPattern = _keep_alive
z3.z3.MultiPattern = _keep_alive


class Unsupported(Exception):
    """The code left the subset pyvc understands: reported as a failed obligation, never skipped."""


# ---------------------------------------------------------------- types
class T:
    def __init__(self, k, *a):
        self.k, self.a = k, a
        self.name = k + ("<" + ",".join(getattr(x, "name", str(x)) for x in a) + ">" if a else "")

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)


INT, BOOL, REAL, STR, VAL, NONE, PY, UNDEF = (T(x) for x in ("int", "bool", "real", "str", "val", "none", "py", "undef"))
SNOC = T("snoc")  # tuples of nodes, built at the end


def Ref(c):
    return T("ref", c)


def Id(c):
    return T("id", c)


def Seq(t):
    return T("seq", t)


def Map(k, v):
    return T("map", k, v)


def Set(k):
    return T("set", k)


def Tup(*ts):
    return T("tup", *ts)


def Opt(t):
    return T("opt", t)


def Sort(name):
    return T("sort", name)


CONTAINER = ("seq", "map", "set")
_sorts, _fn, _tupsorts = {}, {}, {}


def mangle(t):
    return t.name.replace("<", "_").replace(">", "").replace(",", "_")


def usort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


NODE = usort("Node")
Path = z3.Datatype("Path")
Path.declare("nil")
Path.declare("snoc", ("init", Path), ("last", NODE))
Path = Path.create()


def sort_of(t):
    k = t.k
    if k == "int":
        return z3.IntSort()
    if k == "bool":
        return z3.BoolSort()
    if k == "real":
        return z3.RealSort()
    if k == "str":
        return usort("Str")
    if k == "val":
        return usort("Val")
    if k in ("ref", "id"):
        return usort(t.a[0])
    if k == "seq":
        return usort("Seq_" + mangle(t.a[0]))
    if k == "set":
        return z3.ArraySort(keysort(t.a[0]), z3.BoolSort())
    if k == "snoc":
        return Path
    if k == "sort":
        return usort(t.a[0])
    if k in ("tup", "map", "opt"):
        if t not in _tupsorts:
            d = z3.Datatype("D_" + mangle(t))
            if k == "tup":
                fs = [("p%d_%s" % (i, mangle(t)), sort_of(x)) for i, x in enumerate(t.a)]
            elif k == "map":
                fs = [("dom_" + mangle(t), z3.ArraySort(keysort(t.a[0]), z3.BoolSort())),
                      ("val_" + mangle(t), z3.ArraySort(keysort(t.a[0]), sort_of(t.a[1])))]
            else:
                fs = [("isnone_" + mangle(t), z3.BoolSort()), ("some_" + mangle(t), sort_of(t.a[0]))]
            d.declare("mk_" + mangle(t), *fs)
            _tupsorts[t] = d.create()
        return _tupsorts[t]
    raise Unsupported("no sort for type %s" % t)


def keysort(t):
    # dictionaries keyed by Node objects work by the node's number (Node.__hash__/__eq__), kept by the interpreter
    if t == Ref("Node"):
        return z3.IntSort()
    return sort_of(t)


_cnt = [0]


def fresh_name(base):
    _cnt[0] += 1
    return "%s!%d" % (base, _cnt[0])


def reset_names():
    _cnt[0] = 0
    _lits.clear()


def const(base, t):
    return z3.Const(fresh_name(base), sort_of(t) if isinstance(t, T) else t)


def fn(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _fn:
        _fn[key] = z3.Function(name, *sorts)
    return _fn[key]


def null(cls):
    return z3.Const("null_" + cls, usort(cls))


_lits = {}


def strlit(s):
    if s not in _lits:
        _lits[s] = z3.Const("str_%d_%s" % (len(_lits), "".join(ch if ch.isalnum() else "_" for ch in s)[:20]), usort("Str"))
    return _lits[s]


def literal_axioms():
    return [z3.Distinct(*_lits.values())] if len(_lits) > 1 else []


addr = fn("addr", NODE, z3.IntSort())
fkey = fn("fkey", usort("Frame"), z3.RealSort())


# ---------------------------------------------------------------- sequences
class SeqTheory:
    """Uninterpreted sequences with len/at/mem, in the style of Boogie back ends."""

    cache = {}

    def __new__(cls, t):
        if t not in cls.cache:
            o = super().__new__(cls)
            o.init(t)
            cls.cache[t] = o
        return cls.cache[t]

    def init(self, t):
        self.t = t
        self.kept = {}
        S, E, I, B = sort_of(Seq(t)), sort_of(t), z3.IntSort(), z3.BoolSort()
        m = mangle(t)
        self.S, self.E = S, E
        self.len = fn("len_" + m, S, I)
        self.at = fn("at_" + m, S, I, E)
        self.mem = fn("mem_" + m, S, E, B)
        self.idx = fn("idx_" + m, S, E, I)
        self.app = fn("app_" + m, S, E, S)
        self.cat = fn("cat_" + m, S, S, S)
        self.upd = fn("upd_" + m, S, I, E, S)
        self.occ = fn("occ_" + m, S, I, E, I)
        self.occend = fn("occend_" + m, S, E, I)
        self.empty = z3.Const("empty_" + m, S)

    def axioms(self, occ=False):
        s, t = z3.Consts("s t", self.S)
        x, y = z3.Consts("x y", self.E)
        i = z3.Int("i")
        L, at, mem = self.len, self.at, self.mem
        FA, A, Imp = z3.ForAll, z3.And, z3.Implies
        ax = [
            FA([s], L(s) >= 0, patterns=[L(s)]),
            L(self.empty) == 0,
            FA([s], Imp(L(s) == 0, s == self.empty), patterns=[L(s)]),
            FA([x], z3.Not(mem(self.empty, x)), patterns=[mem(self.empty, x)]),
            FA([s, x], Imp(mem(s, x), A(self.idx(s, x) >= 0, self.idx(s, x) < L(s), at(s, self.idx(s, x)) == x)), patterns=[mem(s, x)]),
            FA([s, i], Imp(A(i >= 0, i < L(s)), mem(s, at(s, i))), patterns=[at(s, i)]),
            FA([s, x], L(self.app(s, x)) == L(s) + 1, patterns=[self.app(s, x)]),
            FA([s, x, i], Imp(A(i >= 0, i < L(s)), at(self.app(s, x), i) == at(s, i)), patterns=[at(self.app(s, x), i)]),
            FA([s, x, i], Imp(A(i >= 0, i < L(s)), at(self.app(s, x), i) == at(s, i)), patterns=[z3.MultiPattern(self.app(s, x), at(s, i))]),
            FA([s, x], at(self.app(s, x), L(s)) == x, patterns=[self.app(s, x)]),
            FA([s, x, y], mem(self.app(s, x), y) == z3.Or(mem(s, y), x == y), patterns=[mem(self.app(s, x), y)]),
            FA([s, x], mem(self.app(s, x), x), patterns=[self.app(s, x)]),
            FA([s, t], L(self.cat(s, t)) == L(s) + L(t), patterns=[self.cat(s, t)]),
            FA([s, t, i], Imp(A(i >= 0, i < L(s) + L(t)), at(self.cat(s, t), i) == z3.If(i < L(s), at(s, i), at(t, i - L(s)))), patterns=[at(self.cat(s, t), i)]),
            FA([s, t, i], Imp(A(i >= 0, i < L(s)), at(self.cat(s, t), i) == at(s, i)), patterns=[z3.MultiPattern(self.cat(s, t), at(s, i))]),
            FA([s, t, i], Imp(A(i >= 0, i < L(t)), at(self.cat(s, t), L(s) + i) == at(t, i)), patterns=[z3.MultiPattern(self.cat(s, t), at(t, i))]),
            FA([s, t, x], mem(self.cat(s, t), x) == z3.Or(mem(s, x), mem(t, x)), patterns=[mem(self.cat(s, t), x)]),
            FA([s, i, x], L(self.upd(s, i, x)) == L(s), patterns=[self.upd(s, i, x)]),
        ]
        j = z3.Int("j")
        ax.append(FA([s, i, x, j], Imp(A(j >= 0, j < L(s)), at(self.upd(s, i, x), j) == z3.If(i == j, x, at(s, j))), patterns=[at(self.upd(s, i, x), j)]))
        ax.append(FA([s, i, x, j], Imp(A(j >= 0, j < L(s)), at(self.upd(s, i, x), j) == z3.If(i == j, x, at(s, j))), patterns=[z3.MultiPattern(self.upd(s, i, x), at(s, j))]))
        if occ:
            ax += [
                FA([s, x], self.occ(s, 0, x) == 0, patterns=[self.occ(s, 0, x)]),
                FA([s, i, x], Imp(A(i >= 0, i < L(s)), self.occ(s, i + 1, x) == self.occ(s, i, x) + z3.If(at(s, i) == x, 1, 0)), patterns=[self.occ(s, i + 1, x)]),
                FA([s, i, x], Imp(A(i >= 0, i < L(s)), self.occ(s, i + 1, x) == self.occ(s, i, x) + z3.If(at(s, i) == x, 1, 0)), patterns=[z3.MultiPattern(self.occ(s, i, x), at(s, i))]),
            ]
        return ax


# ---------------------------------------------------------------- values
class MapC:
    """Content of a dictionary or set: domain, values, and (for Node keys) the key objects."""

    def __init__(self, dom, val=None, obj=None):
        self.dom, self.val, self.obj = dom, val, obj

    def has(self, k):
        return z3.Select(self.dom, k)

    def get(self, k):
        return z3.Select(self.val, k)

    def key(self, k):
        return z3.Select(self.obj, k)


class V:
    def __init__(self, t, x):
        self.t, self.x = t, x

    def __repr__(self):
        return "V(%s, %s)" % (self.t, str(self.x)[:80])


class Loc:
    """A mutable container: ('box', id) or ('field', cls, field, object term, epoch), plus keys into nested containers."""

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)


NONEV = V(NONE, None)


def pyv(o):
    return V(PY, o)


def fresh(base, t):
    """A value of type t about which nothing is known (containers: a pure content)."""
    if t.k == "map":
        ks, vs = keysort(t.a[0]), sort_of(t.a[1])
        return V(t, MapC(const(base + ".dom", z3.ArraySort(ks, z3.BoolSort())), const(base + ".val", z3.ArraySort(ks, vs)),
                         const(base + ".obj", z3.ArraySort(ks, NODE)) if t.a[0] == Ref("Node") else None))
    if t.k == "set":
        ks = keysort(t.a[0])
        return V(t, MapC(const(base + ".dom", z3.ArraySort(ks, z3.BoolSort())), None,
                         const(base + ".obj", z3.ArraySort(ks, NODE)) if t.a[0] == Ref("Node") else None))
    if t.k == "tup":
        return V(t, [fresh("%s.%d" % (base, i), x) for i, x in enumerate(t.a)])
    if t.k == "opt":
        return V(t, (const(base + ".none", z3.BoolSort()), fresh(base, t.a[0])))
    if t.k == "none":
        return NONEV
    return V(t, const(base, t))


def pack(v):
    """The single term standing for a pure value (stored in sequences, maps and fields)."""
    t = v.t
    if t.k == "tup":
        return sort_of(t).constructor(0)(*[pack(x) for x in v.x])
    if t.k == "map":
        if v.x.obj is not None:
            raise Unsupported("node-keyed dictionary stored inside a container")
        return sort_of(t).constructor(0)(v.x.dom, v.x.val)
    if t.k == "set":
        if v.x.obj is not None:
            raise Unsupported("node-keyed set stored inside a container")
        return v.x.dom
    if t.k == "opt":
        return sort_of(t).constructor(0)(v.x[0], pack(v.x[1]))
    if t.k in ("py", "none", "undef"):
        raise Unsupported("cannot store %r in a container" % v)
    return v.x


def unpack(t, term):
    if t.k == "tup":
        s = sort_of(t)
        return V(t, [unpack(x, s.accessor(0, i)(term)) for i, x in enumerate(t.a)])
    if t.k == "map":
        s = sort_of(t)
        return V(t, MapC(s.accessor(0, 0)(term), s.accessor(0, 1)(term)))
    if t.k == "set":
        return V(t, MapC(term))
    if t.k == "opt":
        s = sort_of(t)
        return V(t, (s.accessor(0, 0)(term), unpack(t.a[0], s.accessor(0, 1)(term))))
    return V(t, term)


def empty_content(t):
    if t.k == "seq":
        return V(t, SeqTheory(t.a[0]).empty)
    ks = keysort(t.a[0])
    obj = z3.K(ks, null("Node")) if t.a[0] == Ref("Node") else None
    if t.k == "set":
        return V(t, MapC(z3.K(ks, z3.BoolVal(False)), None, obj))
    return V(t, MapC(z3.K(ks, z3.BoolVal(False)), const("noval", z3.ArraySort(ks, sort_of(t.a[1]))), obj))


def terms_of(v):
    if v.t.k in ("map", "set"):
        return [x for x in (v.x.dom, v.x.val, v.x.obj) if x is not None]
    if v.t.k == "tup":
        return [y for x in v.x for y in terms_of(x)]
    if v.t.k == "opt":
        return [v.x[0]] + terms_of(v.x[1])
    if v.t.k in ("py", "none", "undef"):
        return []
    return [v.x]


def rebuild(v, ts):
    """v with its terms replaced by those of the list ts (consumed from the front)."""
    if v.t.k in ("map", "set"):
        d = ts.pop(0)
        val = ts.pop(0) if v.x.val is not None else None
        obj = ts.pop(0) if v.x.obj is not None else None
        return V(v.t, MapC(d, val, obj))
    if v.t.k == "tup":
        return V(v.t, [rebuild(x, ts) for x in v.x])
    if v.t.k == "opt":
        b = ts.pop(0)
        return V(v.t, (b, rebuild(v.x[1], ts)))
    if v.t.k in ("py", "none", "undef"):
        return v
    return V(v.t, ts.pop(0))
