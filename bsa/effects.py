"""Scan of every call, import and assignment of the package for operations with effects."""
from __future__ import annotations

import ast

from . import spec
from .interp import EFFECT_BUILTINS
from .world import IO_METHODS, PURE, QUIET_IO, SILENT

HARMLESS = PURE | SILENT | {"lark", "regex", "re", "pathlib", "time", "datetime", "threading", "__future__", "string", "inspect", "traceback", "errno",
                            "ast", "io", "codecs", "importlib", "importlib_resources", "pkgutil", "pycep"}
HARMLESS_CALLS = {"os.fspath", "os.PathLike", "os.path", "sys.intern", "sys.getrecursionlimit", "sys.getsizeof", "sys.exc_info"}
BAD_CALLS = {"warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "logging.basicConfig", "logging.disable", "logging.config",
             "logging.FileHandler", "logging.handlers", "importlib.import_module", "importlib.reload", "importlib.invalidate_caches", "time.sleep",
             "threading.Thread", "threading.Timer", "inspect.currentframe", "io.open_code", "builtins.open", "builtins.exec", "builtins.eval",
             "builtins.compile", "builtins.__import__", "json.dump", "time.tzset", "threading.setprofile", "threading.settrace"}
BAD_METHODS = {"setLevel", "addHandler", "removeHandler", "system", "popen", "urlopen", "import_module", "exec_module", "load_module", "save"}


class Scan(ast.NodeVisitor):
    def __init__(self, path, allowed):
        self.path, self.allowed = path, allowed
        self.names: dict = {}
        self.local: set = set()
        self.found: list = []
        self.calls = 0
        self.stmt = None

    def report(self, node, what):
        self.found.append((what, (self.path, node.lineno)))

    def visit(self, node):
        if isinstance(node, ast.stmt) and not hasattr(node, "body"):
            self.stmt = node
        return super().visit(node)

    def visit_If(self, node):
        t = node.test
        if isinstance(t, ast.Name) and t.id == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING":
            for s in node.orelse:
                self.visit(s)
            return
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.names[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]

    def visit_ImportFrom(self, node):
        base = "pycep" if node.level else (node.module or "")
        for a in node.names:
            self.names[a.asname or a.name] = f"{base}.{a.name}"

    def dotted(self, n):
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            root = self.names.get(n.id)
            if root:
                return ".".join([root, *parts[::-1]])
            if n.id in EFFECT_BUILTINS and not parts and n.id not in self.local:
                return "builtins." + n.id
        return None

    def covered(self, node):
        lo, hi = node.lineno, getattr(node, "end_lineno", node.lineno)
        return any(p == str(self.path) and lo <= line <= hi for p, line in self.allowed)

    def visit_Call(self, node):
        self.calls += 1
        d = self.dotted(node.func)
        if d:
            root = d.split(".")[0]
            if d.startswith("builtins."):
                if not self.covered(node):
                    self.report(node, f"calls {d[9:]}()")
            elif any(d == b or d.startswith(b + ".") for b in BAD_CALLS):
                self.report(node, f"calls {d}()")
            elif root in HARMLESS or d in HARMLESS_CALLS or d.startswith("os.path."):
                if (d.rpartition(".")[2] in IO_METHODS - QUIET_IO or d in ("io.open", "codecs.open")) and not self.covered(node) \
                        and not d.endswith(".replace"):
                    self.report(node, f"calls {d}()")
            else:
                self.report(node, f"calls {d}()")
        elif isinstance(node.func, ast.Attribute):
            n = node.func.attr
            if n in IO_METHODS - QUIET_IO - {"replace", "owner", "group", "glob", "walk", "home", "stat", "rename", "cwd"} and not self.covered(node):
                self.report(node, f"calls .{n}() on {ast.unparse(node.func.value)}")
            elif n in BAD_METHODS:
                self.report(node, f"calls .{n}() on {ast.unparse(node.func.value)}")
        elif isinstance(node.func, ast.Name) and node.func.id in ("setattr", "delattr") and node.args and self.dotted(node.args[0]) \
                and self.dotted(node.args[0]).split(".")[0] not in ("pycep",):
            self.report(node, f"{node.func.id}() on {ast.unparse(node.args[0])}")
        self.generic_visit(node)

    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
            return
        b = t
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Attribute):
            d = self.dotted(b)
            if d and d.split(".")[0] != "pycep":
                self.report(t, f"assigns {d}")

    def visit_Assign(self, node):
        for t in node.targets:
            self.target(t)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.target(node.target)
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.target(node.target)
        self.generic_visit(node)

    def visit_Delete(self, node):
        for t in node.targets:
            self.target(t)


def scan(allowed, stats):
    """findings of all modules; allowed are the (path, line) of reads the interpretation found harmless"""
    out = []
    calls = 0
    for path in spec.W.files():
        s = Scan(path, allowed)
        tree = spec.W.tree_of(path)
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                s.local.add(n.name)
            elif isinstance(n, ast.arg):
                s.local.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                s.visit_Import(n)
            elif isinstance(n, ast.ImportFrom):
                s.visit_ImportFrom(n)
        s.visit(tree)
        calls += s.calls
        for what, loc in s.found:
            out.append((what, loc))
    stats.extra["call_sites_scanned"] = stats.extra.get("call_sites_scanned", 0) + calls
    stats.extra["modules_scanned"] = stats.extra.get("modules_scanned", 0) + len(spec.W.files())
    return out
