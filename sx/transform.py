"""Import-time instrumentation: the real source, with its calls, subscripts,
membership tests and f-strings routed through sx.calls.  Nothing is cached:
the source is read and rewritten on every run."""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from . import calls

SKIP_NAMES = {"super", "locals", "globals", "vars", "dir", "eval", "exec",
              "cast", "_cast", "TypeVar", "_TypeVar", "NamedTuple",
              "namedtuple", "NewType"}
PREFIX = "_sx_"


class Rewriter(ast.NodeTransformer):
    def _n(self, name):
        return ast.Name(id=PREFIX + name, ctx=ast.Load())

    # leave annotations alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(b) for b in node.body]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        # bases (generics) stay as they are
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(b) for b in node.body]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_NAMES:
            return node
        return ast.copy_location(
            ast.Call(func=self._n("call"), args=[f] + node.args,
                     keywords=node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            key = node.slice
            if isinstance(key, ast.Slice):
                none = ast.Constant(value=None)
                key = ast.Call(func=self._n("slice"),
                               args=[key.lower or none, key.upper or none,
                                     key.step or none], keywords=[])
            elif isinstance(key, ast.Tuple) and any(
                    isinstance(e, (ast.Slice, ast.Starred)) for e in key.elts):
                return node
            return ast.copy_location(
                ast.Call(func=self._n("getitem"), args=[node.value, key],
                         keywords=[]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                return ast.copy_location(ast.Expr(ast.Call(
                    func=self._n("setitem_r"), args=[node.value, t.value, t.slice],
                    keywords=[])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            # keep the operands' order of evaluation: item, then container
            c = ast.Call(func=self._n("contains_r"),
                         args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant(value="")
                parts.append(ast.Call(
                    func=self._n("fld"),
                    args=[self.visit(v.value), ast.Constant(value=v.conversion), spec],
                    keywords=[]))
            else:
                parts.append(v)
        return ast.copy_location(
            ast.Call(func=self._n("fstr"), args=parts, keywords=[]), node)

    # match patterns contain expressions that must stay as they are
    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = [self.visit(b) for b in node.body]
        return node


HELPERS = {
    "call": calls.call,
    "getitem": calls.getitem,
    "setitem_r": lambda value, obj, key: calls.setitem(obj, key, value),
    "contains_r": lambda item, container: calls.contains(container, item),
    "fstr": calls.fstr,
    "fld": calls.fld,
    "slice": slice,
}

INSTRUMENTED = {}


def instrument(source, path):
    tree = ast.parse(source, path)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            data = f.read()
        INSTRUMENTED[fullname] = path
        return instrument(importlib.util.decode_source(data), path)

    def exec_module(self, module):
        for k, v in HELPERS.items():
            module.__dict__[PREFIX + k] = v
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, packages, exclude=()):
        self.packages = tuple(packages)
        self.exclude = tuple(exclude)

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.packages or fullname.startswith(self.exclude):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return None
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(packages, exclude=("\0",)):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(packages, exclude))
