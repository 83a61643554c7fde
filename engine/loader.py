"""Loads nion.utils from /repo's current source for symbolic execution.

Each module is read, parsed and compiled from /repo on every run.  The only source-level change is
that set displays and set comprehensions become calls of the name `set`, and `%`, `in` and `.join`
calls of functions that accept symbolic texts and numbers; everything else is
obtained by giving the module a private `__builtins__` in which the number types, `set`, `range`,
`min`, `max`, ... accept symbolic values as well, and by answering its imports of a few standard
modules (math, time, threading, queue, ...) with the stand-ins a harness asks for.
Modules of the repository that a refactoring adds under nion.utils are loaded the same way.
"""
from __future__ import annotations

import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import shims, sym

REPO = os.environ.get("VERIF_REPO", "/repo")

_real_import = builtins.__import__


class _SetDisplays(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=ast.Name("set", ast.Load()), args=[ast.List(node.elts, ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=ast.Name("set", ast.Load()), args=[ast.ListComp(node.elt, node.generators)], keywords=[]),
            node)

    def visit_BinOp(self, node):
        # the text of a symbolic number in "%..." % x (see sym.sym_mod)
        self.generic_visit(node)
        if not isinstance(node.op, ast.Mod):
            return node
        return ast.copy_location(ast.Call(func=ast.Name("__verif_mod__", ast.Load()), args=[node.left, node.right], keywords=[]), node)

    def visit_Call(self, node):
        # ", ".join(x) where x has symbolic texts
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred):
            return ast.copy_location(ast.Call(func=ast.Name("__verif_join__", ast.Load()), args=[node.func.value, node.args[0]], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        # x in "abc" where x is a symbolic text
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__verif_in__" if isinstance(node.ops[0], ast.In) else "__verif_not_in__"
            return ast.copy_location(ast.Call(func=ast.Name(name, ast.Load()), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node


def compile_source(path, transform=True):
    with open(path, "rb") as f:
        src = f.read()
    tree = ast.parse(src, path)
    if transform:
        tree = ast.fix_missing_locations(_SetDisplays().visit(tree))
    return compile(tree, path, "exec")


def _patched_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        stub = shims.MODULE_STUBS.get(name)
        if stub is not None:
            return stub
    return _real_import(name, globals, locals, fromlist, level)


def make_builtins():
    b = dict(vars(builtins))
    b.update(sym.BUILTIN_SHIMS)
    b["__import__"] = _patched_import
    return b


_code_cache = {}


def _code_for(path, transform):
    st = os.stat(path)
    key = (path, transform, st.st_mtime_ns, st.st_size)
    c = _code_cache.get(key)
    if c is None:
        c = _code_cache[key] = compile_source(path, transform)
    return c


def _plain_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        stub = shims.MODULE_STUBS.get(name)
        if stub is not None and stub._overrides and name not in ("math", "re"):
            return stub
    return _real_import(name, globals, locals, fromlist, level)


def make_plain_builtins():
    """The real builtins; only imports of modules a harness stubs are answered differently."""
    b = dict(vars(builtins))
    b["__import__"] = _plain_import
    return b


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg, symbolic):
        self.path, self.is_pkg, self.symbolic = path, is_pkg, symbolic

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.symbolic:
            module.__dict__["__builtins__"] = make_builtins()
        else:
            module.__dict__["__builtins__"] = make_plain_builtins()
        module.__dict__["__file__"] = self.path
        if os.path.exists(self.path):
            exec(_code_for(self.path, self.symbolic), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, symbolic):
        self.symbolic = symbolic

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "nion" and not fullname.startswith("nion."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            # nion/__init__.py only extends a namespace path; do not let other packages in.
            p = init if fullname != "nion" else "/nonexistent"
            spec = importlib.machinery.ModuleSpec(fullname, _Loader(p, True, self.symbolic), is_package=True, origin=init)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + ".py"):
            spec = importlib.machinery.ModuleSpec(fullname, _Loader(base + ".py", False, self.symbolic), origin=base + ".py")
            spec.has_location = True
            return spec
        return None


MODULES = ["Binding", "Converter", "Event", "Geometry", "ListModel", "Model", "Observable", "Persistence",
           "Process", "Promise", "Recorder", "ReferenceCounting", "Registry", "Selection", "Stream",
           "StructuredModel", "ThreadPool", "Validator"]


class Modules:
    """Attribute access to the nion.utils modules, imported on demand."""

    def __init__(self, symbolic):
        self._symbolic = symbolic

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        m = importlib.import_module("nion.utils." + name)
        setattr(self, name, m)
        return m


def purge():
    for n in list(sys.modules):
        if n == "nion" or n.startswith("nion."):
            del sys.modules[n]


def load(symbolic):
    """Fresh module objects from the current source."""
    purge()
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    sys.meta_path.insert(0, Finder(symbolic))
    return Modules(symbolic)
