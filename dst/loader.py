"""Loads the Slate sources from /repo afresh for every run."""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
ROOT = os.path.join(REPO, "slate") + os.sep
_CODE: dict[str, object] = {}
_SOURCE: dict[str, str] = {}
_POINTED: dict[str, object] = {}


POINTS = None  # callable: called where a signal may be handled in the library that is loaded while it is set
_POINT = "__dst_point__"


def _calls(node) -> bool:
    """Whether something is called by an expression or a simple statement."""

    return any(isinstance(part, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.ListComp, ast.SetComp,
                                 ast.DictComp, ast.GeneratorExp)) for part in ast.walk(node))


def _hook(stmt):
    return ast.copy_location(ast.Expr(ast.Call(ast.Name(_POINT, ast.Load()), [], [])), stmt)


class _Pointed(ast.NodeTransformer):
    """Puts a call to the hook wherever CPython may handle a signal between two statements of a function.

    That is at the start of functions and of loop bodies, after loops, and after statements that call something, but
    not between, say, two assignments of what is already at hand.
    """

    def visit_FunctionDef(self, node):
        node.body = self.pointed(node.body, True, function=True)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def pointed(self, block, first, function=False):
        """The block with hooks, one of them at its start if asked for."""

        out = []
        for i, stmt in enumerate(block):
            declares = isinstance(stmt, (ast.Global, ast.Nonlocal)) or (
                function and i == 0 and isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant))
            if first and not declares:
                out.append(_hook(stmt))
                first = False
            out.append(stmt)
            if not declares and self.after(stmt):
                out.append(_hook(stmt))
        return out

    def after(self, stmt) -> bool:
        """Sees to the blocks within a statement; returns whether a hook has to follow it."""

        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.visit(stmt)
            return False
        if isinstance(stmt, (ast.For, ast.AsyncFor, ast.While)):
            stmt.body = self.pointed(stmt.body, True)
            stmt.orelse = self.pointed(stmt.orelse, True)
            return True
        if isinstance(stmt, (ast.With, ast.AsyncWith)):
            stmt.body = self.pointed(stmt.body, True)
            return True
        if isinstance(stmt, ast.If):
            first = _calls(stmt.test)
            stmt.body = self.pointed(stmt.body, first)
            stmt.orelse = self.pointed(stmt.orelse, first) or ([_hook(stmt)] if first else [])
            return False
        if isinstance(stmt, ast.Try):
            for part in (stmt, *stmt.handlers):
                part.body = self.pointed(part.body, False)
            stmt.orelse = self.pointed(stmt.orelse, False)
            stmt.finalbody = self.pointed(stmt.finalbody, False)
            return False
        if isinstance(stmt, ast.Match):
            for case in stmt.cases:
                case.body = self.pointed(case.body, True)
            return True
        return not isinstance(stmt, (ast.Return, ast.Raise, ast.Break, ast.Continue)) and _calls(stmt)


def _point() -> None:
    if POINTS is not None:
        POINTS()


class _Loader(importlib.abc.Loader):
    def __init__(self, path: str) -> None:
        self.path = path

    def create_module(self, spec):
        return None

    def get_code(self, fullname):
        return _CODE[self.path]

    def exec_module(self, module) -> None:
        if POINTS is None:
            exec(_CODE[self.path], module.__dict__)
            return
        if self.path not in _POINTED:
            tree = _Pointed().visit(ast.parse(_SOURCE[self.path], self.path))
            _POINTED[self.path] = compile(ast.fix_missing_locations(tree), self.path, "exec")
        module.__dict__[_POINT] = _point
        exec(_POINTED[self.path], module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "slate" and not fullname.startswith("slate."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        for candidate, package in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if candidate not in _CODE and os.path.exists(candidate):
                from .seams import REAL

                opener = REAL.get("builtins.open", open)
                with opener(candidate, "r", encoding="utf-8") as file:
                    _SOURCE[candidate] = file.read()
                _CODE[candidate] = compile(_SOURCE[candidate], candidate, "exec")
            if candidate in _CODE:
                return importlib.util.spec_from_file_location(
                    fullname, candidate, loader=_Loader(candidate),
                    submodule_search_locations=[base] if package else None,
                )
        return None


_FINDER = _Finder()


def fresh():
    """Imports slate as if for the first time; returns the package."""

    if _FINDER not in sys.meta_path:
        sys.meta_path.insert(0, _FINDER)
    for name in [n for n in sys.modules if n == "slate" or n.startswith("slate.")]:
        del sys.modules[name]
    import slate

    return slate


class Points:
    """Counts the statements the library runs; can interrupt it before any of them."""

    def __init__(self) -> None:
        self.count = 0
        self.at = None
        self.what = None

    def __call__(self) -> None:
        self.count += 1
        if self.at is not None:
            self.at -= 1
            if self.at < 0:
                self.at = None
                self.what()


def load_with_points(w) -> Points:
    """load_slate() with a hook before every statement."""

    global POINTS
    POINTS = points = Points()
    w.at_end.append(forget_points)
    return load_slate(w), points


def forget_points() -> None:
    global POINTS
    POINTS = None


def load_slate(w):
    """fresh(), where a failing import is a violation and not an accident of the harness."""

    trace = sys.gettrace()
    sys.settrace(None)  # nothing else runs yet that could be switched to
    try:
        return w.api("import slate", fresh)
    finally:
        sys.settrace(trace)
