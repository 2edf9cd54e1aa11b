"""Contracts: sidecar specifications attached to functions of /repo by file and qualified name."""
import z3
from .core import *


class Spec:
    """Contract of one function.

    params: name -> type (containers are passed by reference); views: overrides of parameters (None, a Python constant
    or another type) that are verified one by one; res: result type, or ('gen', T) for a generator of T.
    requires/ensures: (name, lambda c) pairs; modifies: heap fields, 'alloc:Cls', 'param:x', 'cap:x';
    raises: exception name -> lambda c (the function raises it exactly then); pure: lambda c -> term (definition);
    captures: name -> type, for nested functions; ghost: name -> (type, lambda ex: V at return);
    loops: ordinal -> (name, lambda c) pairs; trusted: reason if the body is not verified.
    """

    def __init__(self, file, qual, params, res=NONE, views=None, requires=(), ensures=(), modifies=(), raises=None, pure=None,
                 captures=None, ghost=None, loops=None, trusted=None, nullable=(), yield_as=None, hints=None, props=(), entry=None, occ=False,
                 ghost_params=None, ghost_args=None, may_raise=(), nullable_res=False):
        self.file, self.qual, self.params, self.res = file, qual, params, res
        self.views = views or {"": {}}
        self.requires, self.ensures = list(requires), list(ensures)
        self.modifies, self.raises, self.pure = list(modifies), raises or {}, pure
        self.captures, self.ghost, self.loops, self.trusted = captures or {}, ghost or {}, loops or {}, trusted
        self.nullable, self.yield_as, self.hints, self.props, self.entry = set(nullable), yield_as, hints, props, entry
        self.occ = occ
        self.ghost_params = ghost_params or {}
        self.ghost_args = ghost_args or {}
        self.may_raise = tuple(may_raise)
        self.nullable_res = nullable_res
        self.types = {}       # local variable -> type of the list it holds, where an empty list does not tell
        self.families = {}    # tag of node-keyed containers told apart by identity -> predicate of the nodes used as keys
        self.reads = ()       # generators: the heap components the body reads between two yields
        self.lazy_ok = {}     # generators: changes of such a component that provably do not matter

    @property
    def id(self):
        return self.file + ":" + self.qual


class Registry:
    def __init__(self):
        self.specs = {}
        self.fields = {}      # "Node.children" -> type
        self.by_attr = {}     # (cls, python attribute) -> field key
        self.axioms = []      # lambda model -> list of terms
        self.externs = {}     # dotted name -> callable(ex, args, kwargs, node) -> V   (assumed contracts on dependencies)
        self.methods = {}     # (type kind or class, method) -> callable(ex, recv, args, kwargs, node)
        self.classes = {}     # class name -> (file, pyname)
        self.assumptions, self.trusted = [], []
        self.str_seqs = set()
        self.lemmas = []      # (name, lambda: (facts, goal)): obligations about the specification itself

    def lemma(self, name, fn):
        self.lemmas.append((name, fn))

    def cls(self, name, file, pyname=None, **fields):
        self.classes[name] = (file, pyname or name)
        for k, (attr, t) in fields.items():
            key = name + "." + k
            self.fields[key] = t
            self.by_attr[(name, attr)] = key

    def add(self, spec):
        self.specs[spec.id] = spec
        return spec


class NS:
    """Attribute access to raw values."""

    def __init__(self, get):
        self._get = get

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self._get(n)


class Heap:
    """Read-only view of a heap: h.children(n), h.arr('Node.children')."""

    def __init__(self, reg, data):
        self._reg, self._d = reg, dict(data)

    def arr(self, key, i=0):
        return self._d[key][i]

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        ks = [k for k in self._d if k.split(".", 1)[1] == n]
        if len(ks) != 1:
            raise Unsupported("ambiguous or unknown field %s in a contract" % n)
        k = ks[0]
        t = self._reg.fields[k]

        def read(o):
            if t.k in ("map", "set"):
                d = self._d[k]
                return MapC(*[z3.Select(a, o) for a in d])
            return z3.Select(self._d[k][0], o)
        return read

    def alive(self, cls, o):
        return z3.Select(self._d["alive." + cls][0], o)


class C:
    """What a contract clause sees."""


def raw(v):
    if v.t.k in ("tup",):
        return [raw(x) for x in v.x]
    if v.t.k == "opt":
        return (v.x[0], raw(v.x[1]))
    return v.x
