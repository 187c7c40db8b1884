"""AST instrumentation of the code under test.

Modules of /repo (and the few stdlib modules the data flows through) are loaded
from their current source; every call, ``%``, ``in``, subscript and f-string is
routed to the hooks in ``models``.  Branches need no rewriting: a symbolic
condition forks in ``SymBool.__bool__``.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import models

NOHOOK = {'super', 'locals', 'globals', 'vars', 'dir', '__import__'}


class Rewriter(ast.NodeTransformer):
    def _name(self, n, node):
        return ast.copy_location(ast.Name(n, ast.Load()), node)

    def _hook(self, n, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(self._name(n, node), list(args), list(keywords)), node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOHOOK:
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Name) and f.id in ('exec', 'eval') and not node.keywords \
                and len(node.args) == 1:
            self.generic_visit(node)
            extra = [self._hook(n, [], node) for n in ('globals', 'locals')]
            return self._hook('__sx_call__', [f] + node.args + extra, node)
        self.generic_visit(node)
        return self._hook('__sx_call__', [node.func] + node.args, node, node.keywords)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._hook('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return self._hook('__sx_in__', [node.left, node.comparators[0]], node)
            if isinstance(op, ast.NotIn):
                return self._hook('__sx_not_in__', [node.left, node.comparators[0]], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            idx = node.slice
            if isinstance(idx, ast.Slice):
                none = ast.copy_location(ast.Constant(None), node)
                sl = self._hook('slice', [idx.lower or none, idx.upper or none,
                                          idx.step or none], node)
                return self._hook('__sx_getitem__', [node.value, sl], node)
            if isinstance(idx, ast.Constant) and isinstance(idx.value, int):
                return node
            if type(idx).__name__ == 'Index':
                idx = idx.value
            if type(idx).__name__ in ('ExtSlice', 'Tuple', 'Starred'):
                return node
            return self._hook('__sx_getitem__', [node.value, idx], node)
        return node

    def visit_JoinedStr(self, node):
        elts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else None
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None \
                    else ast.copy_location(ast.Constant(''), node)
                elts.append(ast.copy_location(ast.Tuple(
                    [val, ast.copy_location(ast.Constant(conv), node), spec], ast.Load()), node))
            else:
                elts.append(v)
        lst = ast.copy_location(ast.List(elts, ast.Load()), node)
        return self._hook('__sx_fstr__', [lst], node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(node.target.id, ast.Load()), node)
            return ast.copy_location(ast.Assign(
                [node.target], self._hook('__sx_mod__', [load, node.value], node)), node)
        return node


_compiled = {}


def compile_source(src, filename, mode):
    key = (src, filename, mode)
    c = _compiled.get(key)
    if c is None:
        tree = ast.parse(src, filename, mode)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, filename, mode, dont_inherit=True)
        if len(_compiled) > 3000:
            _compiled.clear()
        _compiled[key] = c
    return c


def install_hooks():
    builtins.__sx_call__ = models.call
    builtins.__sx_mod__ = models.mod
    builtins.__sx_in__ = models.in_
    builtins.__sx_not_in__ = models.not_in
    builtins.__sx_getitem__ = models.getitem
    builtins.__sx_fstr__ = models.fstr
    builtins.__sxv__ = models.SXV


STDLIB = ['xml.dom.minidom', 'xml.dom.minicompat', 'xml.sax.saxutils', 'nine', 'nine.decorator',
          'textwrap']


class SxLoader(importlib.machinery.SourceFileLoader):
    """A source loader that instruments; never reads or writes byte code."""
    loaded = {}

    def get_code(self, fullname):
        fn = self.get_filename(fullname)
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, fn, 'exec')
        SxLoader.loaded[fullname] = sorted(
            n.name for n in ast.walk(tree)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)))
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, fn, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__[models.MARK] = True
        importlib.machinery.SourceFileLoader.exec_module(self, module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, names):
        self.roots = [os.path.realpath(r) + os.sep for r in roots]
        self.names = set(names)

    @property
    def loaded(self):
        return SxLoader.loaded

    def find_spec(self, name, path, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return None
        origin = os.path.realpath(spec.origin)
        if name in self.names or any(origin.startswith(r) for r in self.roots):
            return importlib.util.spec_from_file_location(
                name, spec.origin, loader=SxLoader(name, spec.origin),
                submodule_search_locations=spec.submodule_search_locations)
        return None


def install(roots):
    sys.dont_write_bytecode = True
    install_hooks()
    for n in STDLIB:
        sys.modules.pop(n, None)
    f = Finder(roots, STDLIB)
    sys.meta_path.insert(0, f)
    return f
