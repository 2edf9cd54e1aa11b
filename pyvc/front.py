"""Reads /repo's source: modules, classes, functions (by qualified name), loop ordinals."""
import ast
import json
import os
import subprocess

from .core import Unsupported

REPO = os.environ.get("PYVC_REPO", "/repo")


class Func:
    def __init__(self, mod, qual, node, cls=None):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        self.decorators = []
        for d in node.decorator_list:
            self.decorators.append(ast.unparse(d))

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))


class Class:
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
        self.methods, self.consts = {}, {}
        self.bases = [ast.unparse(b) for b in node.bases]
        self.decorators = [ast.unparse(d) for d in node.decorator_list]


def parse(path):
    full = os.path.join(REPO, path)
    if not path.endswith(".pyx"):
        return ast.parse(open(full).read(), path)
    p = subprocess.run(["/opt/venv/bin/python", os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyx2py.py"), full], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        raise Unsupported("%s: %s" % (path, p.stderr.strip().splitlines()[-1:]))
    d = json.loads(p.stdout)
    t = ast.parse(d["text"], path)
    for n in ast.walk(t):
        for k in ("lineno", "end_lineno"):
            if hasattr(n, k):
                setattr(n, k, d["lines"][getattr(n, k) - 1])
    return t


class Module:
    def __init__(self, path, tree=None):
        self.path = path
        self.tree = tree if tree is not None else parse(path)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self.by_qual = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Func(self, n.name, n)
                self.funcs[n.name] = f
                self._add(f, n.name)
            elif isinstance(n, ast.ClassDef):
                c = Class(self, n.name, n)
                self.classes[n.name] = c
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        f = Func(self, n.name + "." + m.name, m, c)
                        if not any(x.endswith(".setter") for x in f.decorators):
                            c.methods[m.name] = f
                        self._add(f, f.qual)
                    elif isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name):
                        c.consts[m.targets[0].id] = m.value
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = ("from", n.module, n.level, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[(a.asname or a.name).split(".")[0]] = ("import", a.name, 0, None)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, (ast.Try, ast.If)):
                self._scan(n.body)

    def _add(self, f, qual):
        self.by_qual[qual] = f
        for n in walk_own(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node:
                q = qual + "." + n.name
                self._add(Func(self, q, n, f.cls), q)


def walk_own(fn):
    """Nodes of a function, without those of the functions nested in it (the nested def itself is included)."""
    todo = list(fn.body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo = list(ast.iter_child_nodes(n)) + todo


def loops_of(fn):
    """Loops in source order: node -> ordinal."""
    ls = [n for n in walk_own(fn) if isinstance(n, (ast.For, ast.While))]
    ls.sort(key=lambda n: (n.lineno, n.col_offset))
    return {id(n): i for i, n in enumerate(ls)}


_mods = {}


def module(path):
    if path not in _mods:
        _mods[path] = Module(path)
    return _mods[path]


def resolve_import(mod, name):
    """-> ('func', Func) | ('class', Class) | ('const', Module, expr) | ('module', dotted) | None"""
    kind = mod.imports.get(name)
    if kind is None:
        return None
    k, m, level, orig = kind
    if k == "import":
        return ("module", m)
    base = mod.path.split("/")[:-1]
    if level:
        base = base[: len(base) - (level - 1)]
        parts = base + (m.split(".") if m else [])
    else:
        parts = (m or "").split(".")
    if parts[0] != "hatchet":
        return ("ext", ".".join(parts), orig)
    p = "/".join(parts) + ".py"
    if not os.path.exists(os.path.join(REPO, p)):
        p = "/".join(parts) + "/__init__.py"
        if not os.path.exists(os.path.join(REPO, p)):
            return ("ext", ".".join(parts), orig)
    tgt = module(p)
    return lookup(tgt, orig) or ("ext", ".".join(parts), orig)


def lookup(mod, name):
    if name in mod.funcs:
        return ("func", mod.funcs[name])
    if name in mod.classes:
        return ("class", mod.classes[name])
    if name in mod.imports:
        return resolve_import(mod, name)
    if name in mod.consts:
        return ("const", mod, mod.consts[name])
    return None
