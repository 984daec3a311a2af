"""Imports the code under test, in one of two ways.

`symbolic`: every module of the package is compiled from its current source with a few
operations that CPython does in C (and would reject symbolic values) routed to
symx.values: f-strings, `%` on string constants, str methods that build strings, and
the builtins min, max, int, float, str, len, isinstance, sum, range.
`plain`: the source is compiled as it is.
Either way the source is read from the repository at import time; no caches.
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

BUILTINS = ("min", "max", "int", "float", "str", "len", "isinstance", "sum")
METHODS = ("join", "format", "startswith", "endswith")


class _Bound(ast.NodeVisitor):
    """Names the module binds anywhere: a builtin of that name is left alone."""

    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)
        self.generic_visit(n)

    def visit_arg(self, n):
        self.names.add(n.arg)
        self.generic_visit(n)

    def _def(self, n):
        self.names.add(n.name)
        self.generic_visit(n)

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _def

    def visit_alias(self, n):
        self.names.add((n.asname or n.name).split(".")[0])


class Rewriter(ast.NodeTransformer):
    def __init__(self, tree):
        b = _Bound()
        b.visit(tree)
        # A method called `list` or `get` does not shadow the builtin, but being
        # careful here only costs precision.
        self.bound = b.names
        self.hits = 0

    def _call(self, name, *args):
        self.hits += 1
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant("")
                parts.append(
                    ast.Tuple(
                        [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()
                    )
                )
        return ast.copy_location(self._call("sx_fstr", *parts), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(self._call("sx_mod", n.left, n.right), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in BUILTINS and f.id not in self.bound:
            f = ast.copy_location(ast.Name("sx_" + f.id, ast.Load()), f)
            self.hits += 1
            return ast.copy_location(ast.Call(f, n.args, n.keywords), n)
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            self.hits += 1
            return ast.copy_location(
                ast.Call(
                    ast.Name("sx_meth", ast.Load()),
                    [f.value, ast.Constant(f.attr), *n.args],
                    n.keywords,
                ),
                n,
            )
        return n


class _Loader(importlib.abc.Loader):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if self.mode == "symbolic":
            tree = ast.fix_missing_locations(Rewriter(tree).visit(tree))
            from symx import values

            for k in dir(values):
                if k.startswith("sx_"):
                    module.__dict__[k] = getattr(values, k)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package, mode):
        self.root, self.package, self.mode = root, package, mode

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base):
            file = os.path.join(base, "__init__.py")
            locs = [base]
        else:
            file, locs = base + ".py", None
        if not os.path.exists(file):
            return None
        spec = importlib.util.spec_from_file_location(
            name, file, loader=_Loader(file, self.mode), submodule_search_locations=locs
        )
        return spec


def install(root, package, mode):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root, package, mode))
