"""Load the package under test from /repo's current source, as often as needed.

``load(mode)`` gives a completely fresh import of ``asta``:

* ``"sym"``   -- every call and comparison in the source is routed through
  ``engine.runtime`` so proxies survive ``type(x)``, ``int(x)``, ``x in y`` and
  friends.  Nothing else about the program changes.
* ``"plain"`` -- the unmodified source, used to replay counterexamples and to
  cross-validate explored paths.
"""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import typing

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = "asta"

# Frame sensitive (or not values): never routed through the runtime.
_SKIP_CALLS = {
    "super", "globals", "locals", "vars", "dir", "eval", "exec",
    "__import__", "breakpoint", "compile",
}
_OPS = {
    ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
    ast.Gt: "gt", ast.GtE: "ge", ast.In: "in_", ast.NotIn: "not_in",
    ast.Is: "is_", ast.IsNot: "is_not",
}
_R = "_R_asta_"


def _r(attr):
    return ast.Attribute(ast.Name(_R, ast.Load()), attr, ast.Load())


class _Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALLS:
            return node
        return ast.copy_location(
            ast.Call(_r("call"), [node.func] + node.args, node.keywords), node
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or type(node.ops[0]) not in _OPS:
            return node
        return ast.copy_location(
            ast.Call(
                _r(_OPS[type(node.ops[0])]), [node.left, node.comparators[0]], []
            ),
            node,
        )

    def _text(self, node):
        return ast.copy_location(ast.Call(_r("text"), [node], []), node)

    def _test(self, node):
        self.generic_visit(node)
        if isinstance(node.test, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            node.test = self._text(node.test)
        return node

    visit_If = visit_While = visit_IfExp = _test

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        node.values = [self._text(v) if isinstance(v, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)) else v for v in node.values]
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and isinstance(node.operand, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            node.operand = self._text(node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(_r("mod"), [node.left, node.right], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            node.value = self._text(node.value)
        if isinstance(node.slice, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            node.slice = ast.copy_location(ast.Call(_r("key"), [node.slice], []), node)
        return node

    def _no_annotations(self, node):
        # Annotations are evaluated natively.
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        node.subject = self._text(node.subject)
        return node

    def _iterated(self, node):
        self.generic_visit(node)
        if isinstance(node.iter, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
            node.iter = self._text(node.iter)
        return node

    visit_For = visit_comprehension = _iterated

    # Patterns are compared natively by the interpreter.
    def visit_MatchValue(self, node):
        return node

    def visit_MatchClass(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


_code_cache = {}


def _code(path, mode):
    key = (path, mode)
    if key not in _code_cache:
        with open(path, "rb") as f:
            source = f.read()
        tree = ast.parse(source, path)
        if mode == "sym":
            tree = ast.fix_missing_locations(_Rewriter().visit(tree))
        _code_cache[key] = compile(tree, path, "exec", dont_inherit=True)
    return _code_cache[key]


class _Loader(importlib.abc.Loader):
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.mode == "sym":
            from engine import runtime

            module.__dict__[_R] = runtime
        module.__file__ = self.path
        exec(_code(self.path, self.mode), module.__dict__)

    def get_filename(self, name=None):
        return self.path

    def get_source(self, name=None):
        with open(self.path) as f:
            return f.read()


class _Finder(importlib.abc.MetaPathFinder):
    mode = "plain"

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + "."):
            return None
        _seen.add(fullname)
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            file = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, file, loader=_Loader(file, self.mode),
                submodule_search_locations=[base],
            )
        file = base + ".py"
        if os.path.isfile(file):
            return importlib.util.spec_from_file_location(
                fullname, file, loader=_Loader(file, self.mode)
            )
        return None


FINDER = _Finder()


_seen = set()  # names of the package's modules found so far


def unload():
    for name in _seen:
        sys.modules.pop(name, None)


def load(mode):
    """A fresh import of the package; returns the top-level module."""
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    FINDER.mode = mode
    unload()
    for clear in getattr(typing, "_cleanups", ()):  # List[t] and the like
        clear()
    return importlib.import_module(PACKAGE)


def source_files():
    out = []
    root = os.path.join(REPO, PACKAGE)
    for name in sorted(os.listdir(root)):
        if name.endswith(".py"):
            out.append(os.path.join(root, name))
    return out
