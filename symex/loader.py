"""
Imports openscm from /repo through an AST transformation made anew in every process.

The transformation routes calls (`f(x)` -> `__sc(f, x)`), membership tests and function entries through the
engine and leaves every statement of the source as it is.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = "/repo"
SOURCES = {}
FUNCTIONS = {}  # module -> qualified names of all functions
SKIP_CALLEES = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "cast", "TypeVar"}


class Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.functions = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLEES:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__sc__", ctx=ast.Load()), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "__sin__" if isinstance(node.ops[0], ast.In) else "__snotin__"
            return ast.copy_location(
                ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return ast.copy_location(
                ast.Call(func=ast.Name(id="__sg__", ctx=ast.Load()), args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_AnnAssign(self, node):
        # annotations stay untouched
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _function(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        self.functions.append(qual)
        node.body = [self.visit(b) for b in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.stack.pop()
        probe = ast.Expr(ast.Call(func=ast.Name(id="__fn__", ctx=ast.Load()),
                                  args=[ast.Constant(self.module + ":" + qual)], keywords=[]))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
            and isinstance(node.body[0].value.value, str) else 0
        node.body.insert(i, ast.copy_location(probe, node.body[0]))
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import calls

        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        SOURCES[module.__name__] = self.path
        if not module.__name__.endswith("_version"):
            t = Transformer(module.__name__)
            tree = ast.fix_missing_locations(t.visit(tree))
            FUNCTIONS[module.__name__] = t.functions
        g = module.__dict__
        g["__sc__"] = calls.call
        g["__sin__"] = calls.contains
        g["__snotin__"] = calls.not_contains
        g["__sg__"] = calls.getitem
        g["__fn__"] = calls.enter
        exec(compile(tree, self.path, "exec"), g)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "openscm" and not name.startswith("openscm."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        return None


def install():
    sys.meta_path.insert(0, Finder())
    for m in [m for m in sys.modules if m == "openscm" or m.startswith("openscm.")]:
        del sys.modules[m]
