"""Loads qiskit_optimization from /repo's current sources for symbolic execution.

The sources are re-read and re-compiled on every run.  The only source transformation: calls of the
builtin names int/float/bool go through stand-ins (so that `int(v)` of a symbolic value stays symbolic).
Imports of numpy, math, scipy.sparse and qiskit.opflow inside the package resolve to the models in this
directory; everything else resolves to the real third party module."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np

from . import npshim, sparse

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "qiskit_optimization"

LOADED = {}  # module name -> file


class _Calls(ast.NodeTransformer):
    MAP = {"int": "__sx_int__", "float": "__sx_float__", "bool": "__sx_bool__", "set": "__sx_set__"}

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()), [ast.copy_location(
            ast.List(node.elts, ast.Load()), node)], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()), [ast.copy_location(
            ast.ListComp(node.elt, node.generators), node)], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.MAP:
            node.func = ast.copy_location(ast.Name(self.MAP[node.func.id], ast.Load()), node.func)
        # map(int, xs) / map(float, xs)
        if isinstance(node.func, ast.Name) and node.func.id == "map" and node.args:
            a = node.args[0]
            if isinstance(a, ast.Name) and a.id in self.MAP:
                node.args[0] = ast.copy_location(ast.Name(self.MAP[a.id], ast.Load()), a)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node


NUMPY = npshim.make_numpy()
MATH = npshim.make_math()
SPARSE = sparse.make_module()


class _Top(npshim._NS):
    pass


def _make_overrides():
    import scipy

    top = _Top(scipy)
    top.sparse = SPARSE
    from . import opflow_model

    ov = {"numpy": NUMPY, "numpy.linalg": NUMPY.linalg, "math": MATH, "scipy": top,
          "scipy.sparse": SPARSE, "qiskit.opflow": opflow_model.MODULE}
    return ov


OVERRIDES = None


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in OVERRIDES:
            if fromlist:
                return OVERRIDES[name]
            return OVERRIDES[name.split(".")[0]] if name.split(".")[0] in OVERRIDES else \
                builtins.__import__(name, globals, locals, fromlist, level)
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins():
    d = dict(vars(builtins))
    d["__import__"] = _import
    d["__sx_int__"] = npshim.sx_int
    d["__sx_float__"] = npshim.sx_float
    d["__sx_bool__"] = npshim.sx_bool
    d["__sx_set__"] = npshim.sx_set
    d["min"] = npshim.smin
    d["max"] = npshim.smax
    return d


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_Calls().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__builtins__"] = make_builtins()
        LOADED[module.__name__] = self.path
        exec(self.get_code(module.__name__), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        rel = fullname.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f))
        return None


def install():
    """prepare this process for symbolic execution and import the package."""
    global OVERRIDES
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    # third party first, unpatched
    import docplex.mp.model  # noqa
    import qiskit  # noqa
    import qiskit.opflow  # noqa
    import qiskit.algorithms  # noqa
    import qiskit.circuit.library  # noqa
    import networkx  # noqa
    import scipy.optimize  # noqa
    import scipy.stats  # noqa

    from . import docplex_patch

    docplex_patch.apply()
    OVERRIDES = _make_overrides()
    for m in list(sys.modules):
        if m == PKG or m.startswith(PKG + "."):
            del sys.modules[m]
    sys.meta_path.insert(0, _Finder())
    mod = importlib.import_module(PKG)
    for sub in ("problems", "converters", "algorithms", "applications"):
        importlib.import_module(PKG + "." + sub)
    return mod
