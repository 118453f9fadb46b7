"""Loads the code under test (and pyparsing, which it runs on) so that text can be
symbolic: the source is read from the working tree, and the operations Python does
on C level for strings are routed through symstr / sxre.  Nothing else changes."""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

PACKAGES = ("pyparsing", "pyclibrary")
NAMES = {"str": "sx__str", "isinstance": "sx__isinstance", "int": "sx__int", "ord": "sx__ord"}


class Rewrite(ast.NodeTransformer):
    def __init__(self, own):
        self.own = own  # code under test, rather than a library it runs on

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == "re":
                out.append(ast.ImportFrom(module="symx", names=[ast.alias("sxre", a.asname or "re")], level=0))
            else:
                out.append(ast.Import(names=[a]))
        return [ast.copy_location(n, node) for n in out]

    def visit_ImportFrom(self, node):
        if node.module == "re" and node.level == 0:
            node.module = "symx.sxre"
        return node

    def visit_FunctionDef(self, node):
        if node.name == "_trim_arity":
            return node
        # results remembered by text would enumerate the texts
        node.decorator_list = [self.visit(d) for d in node.decorator_list if "lru_cache" not in ast.unparse(d)]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        node.body = [s for b in node.body for s in _many(self.visit(b))]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and not f.attr.startswith("__"):
            return _at(ast.Call(_name("sx__call"), [f.value, ast.Constant(f.attr), *node.args], node.keywords), node)
        return node

    def visit_Name(self, node):
        # as a function only; as a type it stays what it is
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _at(ast.Call(_name("sx__in"), [node.left, node.comparators[0]], []), node)
            if isinstance(node.ops[0], ast.NotIn):
                r = _at(ast.UnaryOp(ast.Not(), r), node)
            return r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.own and not isinstance(node.slice, (ast.Slice, ast.Tuple, ast.Constant)) and _pure(node.value):
            store = ast.Constant(isinstance(node.ctx, ast.Store))
            node.slice = _at(ast.Call(_name("sx__key"), [_load(node.value), node.slice, store], []), node.slice)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _at(ast.Call(_name("sx__mod"), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(_at(ast.Call(_name("sx__fval"), [self.visit(v.value), ast.Constant(v.conversion), spec], []), node))
        return _at(ast.Call(_name("sx__fstr"), parts, []), node)


class Calls(ast.NodeTransformer):
    """str(x), isinstance(x, t) ... as functions."""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NAMES:
            node.func = _at(_name(NAMES[node.func.id]), node.func)
        return node


def _pure(e):
    """Evaluating it twice does no harm."""
    if isinstance(e, ast.Attribute):
        return _pure(e.value)
    if isinstance(e, ast.Subscript):
        i = e.slice
        if isinstance(i, ast.Call):  # rewritten
            i = i.args[1]
        return _pure(e.value) and isinstance(i, (ast.Name, ast.Constant))
    return isinstance(e, ast.Name)


def _load(e):
    return ast.parse(ast.unparse(e), mode="eval").body


def _many(x):
    return x if isinstance(x, list) else [x]


def _name(n):
    return ast.Name(n, ast.Load())


def _at(new, old):
    return ast.copy_location(new, old)


def rewrite(source, path, own):
    tree = ast.parse(source, path)
    tree = Calls().visit(Rewrite(own).visit(tree))
    return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return rewrite(self.get_data(path), path, fullname.split(".")[0] == "pyclibrary")

    def exec_module(self, module):
        from . import symstr

        d = module.__dict__
        for n in ("call", "str", "isinstance", "in", "mod", "fstr", "fval", "int", "ord", "key"):
            d["sx__" + n] = getattr(symstr, "sx_" + n)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] not in PACKAGES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        spec.cached = None
        return spec


def install():
    for p in PACKAGES:
        if p in sys.modules:
            raise RuntimeError(p + " is loaded already")
    sys.meta_path.insert(0, Finder())
    import pyclibrary.backends.ctypes  # noqa: F401
    import pyparsing

    # memoisation looks texts up by value, which would enumerate them
    pyparsing.ParserElement.disable_memoization()
