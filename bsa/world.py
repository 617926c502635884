"""The analysed program as a whole: its modules, the models of what it imports, and abstract parsing."""
from __future__ import annotations

import ast
import builtins
import functools
import importlib
import os
import pathlib
import re
import sys
import types

import lark
from lark import Token, Tree
from lark.tree import Meta

from . import dom, native
from .dom import (
    CTX, AInt, AStr, AToken, Engine, Hole, Sym, Unsupported, Var, as_astr, conc, force, mk, mk_int, rep_word, snorm,
)
from .interp import (
    AMatch, Effect, Gen, IFunc, Interp, Module, deep_abstract, deep_conc, getattr_, is_engine_error, re_call, re_sub, values_equal,
)

PURE = {
    "typing", "typing_extensions", "types", "enum", "dataclasses", "collections", "itertools", "functools", "operator",
    "string", "textwrap", "math", "copy", "abc", "contextlib", "json", "unicodedata", "bisect", "heapq", "numbers",
    "decimal", "fractions", "html", "keyword", "__future__", "re", "builtins", "statistics", "pprint", "reprlib",
    "weakref", "contextvars", "time_", "hashlib", "base64", "difflib", "ast_", "inspect_",
}
SILENT = {"logging", "warnings"}


class EHole(Hole):
    """a place for an arbitrary expression"""
    __slots__ = ("sym",)


class Stub:
    """something outside the allowed surface; any use is an effect"""

    def __init__(self, world, name):
        object.__setattr__(self, "_w", world)
        object.__setattr__(self, "_n", name)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return Stub(self._w, f"{self._n}.{name}")

    def __setattr__(self, name, v):
        self._w.effect(f"assigns {self._n}.{name}")

    def __call__(self, *a, **k):
        self._w.effect(f"calls {self._n}")
        return Stub(self._w, f"{self._n}()")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        self._w.effect(f"iterates {self._n}")
        return iter(())

    def __getitem__(self, k):
        self._w.effect(f"reads {self._n}[...]")
        return Stub(self._w, f"{self._n}[...]")

    def __setitem__(self, k, v):
        self._w.effect(f"writes {self._n}[...]")

    def __bool__(self):
        raise Unsupported(f"condition on {self._n}")

    def __repr__(self):
        return f"<{self._n}>"


class Silent:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        if name.isupper() or name[:1].isupper():
            real = getattr(importlib.import_module(self._n), name, None)
            if real is not None:
                return real
        return SilentCall(f"{self._n}.{name}")


class SilentCall(Silent):
    def __call__(self, *a, **k):
        return SilentCall(self._n + "()")

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return SilentCall(f"{self._n}.{name}")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return False


class Proxy:
    """a module of which only some attributes are modelled"""

    def __init__(self, world, name, attrs):
        self.__dict__.update(attrs)
        self.__dict__["_w"], self.__dict__["_n"] = world, name

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return Stub(self._w, f"{self._n}.{name}")

    def __setattr__(self, name, v):
        self._w.effect(f"assigns {self._n}.{name}")


class ABytes:
    """the undecoded content of a file"""

    def __init__(self, world, path):
        self.world, self.path = world, path

    def decode(self, encoding="utf-8", errors="strict"):
        return self.world.decode(self.path, encoding, errors)

    def __len__(self):
        raise Unsupported("length of bytes")

    def startswith(self, p):
        raise Unsupported("bytes")


class AFile:
    def __init__(self, world, path, mode, encoding, errors="strict"):
        self.world, self.path, self.mode, self.encoding, self.errors = world, path, mode, encoding, errors
        self.closed = False
        self.rest = None

    def read(self, n=-1):
        if "b" in self.mode:
            return ABytes(self.world, self.path)
        if n not in (-1, None):
            raise Unsupported("partial read")
        return self.world.decode(self.path, self.encoding, self.errors)

    def readlines(self, hint=-1):
        if hint not in (-1, None) or "b" in self.mode:
            raise Unsupported("readlines")
        return re.findall(r"[^\n]*\n|[^\n]+\Z", conc(self.read()))

    def readline(self, size=-1):
        if size not in (-1, None):
            raise Unsupported("partial read")
        if self.rest is None:
            self.rest = iter(self.readlines())
        return next(self.rest, "")

    def __iter__(self):
        if self.rest is None:
            self.rest = iter(self.readlines())
        return self.rest

    def write(self, *_):
        self.world.effect(f"writes file {self.path}")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


class ILru:
    """functools.lru_cache"""

    def __init__(self, world, f, typed=False):
        self.f, self.entries, self.world = f, [], world
        functools.update_wrapper(self, f)
        self.__wrapped__ = f
        world.caches.append(self)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *args, **kw):
        from .interp import CURRENT, is_instance
        for a in [*args, *kw.values()]:
            if is_instance(a, (list, dict, set)):
                native.type_error("unhashable type")
        for (a, k), v in self.entries:
            if len(a) == len(args) and k.keys() == kw.keys() and all(
                    x is y or values_equal(x, y) for x, y in zip(a, args)) and all(values_equal(k[n], kw[n]) for n in k):
                return v
        v = CURRENT.call(self.f, list(args), dict(kw))
        self.entries.append(((args, kw), v))
        return v

    def cache_clear(self):
        self.entries.clear()

    def cache_info(self):
        raise Unsupported("cache_info")

    def cache_parameters(self):
        raise Unsupported("cache_parameters")


_real: dict = {}
_trees: dict = {}


class LarkError(Exception):
    pass


class LarkModel:
    """lark.Lark, parsing abstract texts"""

    world: "World" = None  # type: ignore[assignment]

    def __init__(self, grammar, **options):
        w = type(self).world
        if isinstance(grammar, (AFile,)):
            grammar = grammar.read()
        if isinstance(grammar, AStr):
            raise Unsupported("abstract grammar")
        if not isinstance(grammar, str):
            raise Unsupported("grammar source")
        options = dict(options)
        self.cache_option = options.pop("cache", False)
        self.transformer = options.pop("transformer", None)
        for k in ("debug", "logger"):
            options.pop(k, None)
        for k in ("postlex", "lexer_callbacks", "edit_terminals", "import_paths", "source_path", "tree_class"):
            if options.pop(k, None):
                raise Unsupported(f"Lark option {k}")
        self.grammar = grammar
        self.options = options
        self.real = real_lark(grammar, options)
        w.larks.append(self)
        if self.cache_option:
            w.effect("parser cache", kind="cache")

    @classmethod
    def open(cls, path, rel_to=None, **options):
        p = pathlib.Path(os.path.join(os.path.dirname(str(rel_to)), str(path)) if rel_to else str(path))
        return cls(cls.world.read_source(p), **options)

    @classmethod
    def open_from_package(cls, package, path, search_paths=("",), **options):
        p = cls.world.package_dir(package) / str(path)
        return cls(cls.world.read_source(p), **options)

    def parse(self, text, start=None, on_error=None):
        if on_error is not None or start is not None:
            raise Unsupported("Lark.parse options")
        t = self.parse_model(text)
        if self.transformer is not None:
            return native.call(native.attr(self.transformer, "transform"), [t], {})
        return t

    def parse_model(self, text):
        x = text
        if isinstance(x, Sym) or as_astr(x) is None:
            native.type_error("parse() expects a str")
        x = snorm(x)
        rep = x.rep() if isinstance(x, AStr) else str.__str__(x)
        tree = parse_cached(self.real, rep)
        return symbolise(self.real, tree, x, rep)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"Lark.{name}")


def real_lark(grammar, options):
    key = (grammar, repr(sorted(options.items(), key=lambda t: t[0])))
    r = _real.get(key)
    if r is None:
        r = _real[key] = lark.Lark(grammar, **options)
    return r


def parse_cached(real, rep):
    k = (id(real), rep)
    r = _trees.get(k)
    if r is None:
        try:
            r = (True, real.parse(rep))
        except lark.exceptions.LarkError as e:
            r = (False, e)
        if len(_trees) > 20000:
            _trees.clear()
        _trees[k] = r
    if not r[0]:
        e = r[1]
        parse_model_raise(e)
    return r[1]


def parse_model_raise(e):
    native.throw(e.with_traceback(None))


class Positions:
    """maps offsets of a representative text to segments and abstract line numbers"""

    def __init__(self, x, rep):
        self.segs = x.segs if isinstance(x, AStr) else (x,)
        self.start = []
        pos = 0
        self.lines = [1]
        line = 1
        for s in self.segs:
            self.start.append(pos)
            if isinstance(s, Hole):
                w = rep_word(s)
                nl = line_var(s)
                if nl is not None and s not in CTX.path.word:
                    line = line + mk_int(0, [(nl, 1)]) if isinstance(line, AInt) else mk_int(line, [(nl, 1)])
                else:
                    line = line + w.count("\n")
                pos += len(w)
            else:
                line = line + s.count("\n")
                pos += len(s)
            self.lines.append(line)
        self.end = pos
        self.rep = rep

    def seg_at(self, p):
        """index of the segment containing offset p (p strictly before the segment's end), or len"""
        lo = 0
        for i, st in enumerate(self.start):
            if st <= p:
                lo = i
            else:
                break
        if p >= self.end:
            return len(self.segs), 0
        return lo, p - self.start[lo]

    def text(self, a, b):
        out = []
        i, off = self.seg_at(a)
        while a < b and i < len(self.segs):
            s = self.segs[i]
            ln = len(rep_word(s)) if isinstance(s, Hole) else len(s)
            take = min(b - a, ln - off)
            if isinstance(s, Hole):
                if off == 0 and take == ln:
                    out.append(s)
                else:
                    out.append(rep_word(s)[off: off + take])
                    CTX.path.sampled.append(f"token boundary inside {s.name}")
            else:
                out.append(s[off: off + take])
            a += take
            off = 0
            i += 1
        # empty holes exactly at the end are not part of a token
        return mk(out)

    def line(self, p):
        i, off = self.seg_at(p)
        if i == len(self.segs):
            return self.lines[-1]
        s = self.segs[i]
        t = rep_word(s) if isinstance(s, Hole) else s
        return self.lines[i] + t[:off].count("\n")

    def rep_line(self, p):
        return 1 + self.rep[:p].count("\n")


_linevars: dict = {}


def line_var(h):
    v = _linevars.get(h)
    if v is None:
        if h.kind in ("G", "M", "E", "GX"):
            v = Var(f"lines({h.name})", 0)
            dom.LINEHOLE[v] = h
        else:
            v = False
        _linevars[h] = v
    return v or None


def symbolise(real, tree, x, rep):
    pos = Positions(x, rep)
    wrap = expression_wrapper(real)
    eholes = {}
    for i, s in enumerate(pos.segs):
        if isinstance(s, EHole) and s not in CTX.path.word:
            eholes[(pos.start[i], pos.start[i] + len(rep_word(s)))] = s.sym

    def aline(p, actual):
        d = actual - pos.rep_line(p)
        return pos.line(p) + d

    def tok(t):
        span = (t.start_pos, t.end_pos)
        text = pos.text(*span)
        line, eline = aline(t.start_pos, t.line), aline(t.end_pos, t.end_line)
        if isinstance(text, AStr):
            n = Token.__new__(AToken, t.type, str(t), t.start_pos, line, t.column, eline, t.end_column, t.end_pos)
            n.astr = text
            n.value = text
            return n
        return Token(t.type, text, t.start_pos, line, t.column, eline, t.end_column, t.end_pos)

    def sym_of(t):
        return eholes.get((t.start_pos, t.end_pos)) if isinstance(t, Token) else None

    def rec(t):
        if isinstance(t, Token):
            return tok(t)
        if not isinstance(t, Tree):
            return t
        kids = []
        for c in t.children:
            if isinstance(c, Tree) and wrap is not None and c.data == wrap and len(c.children) == 1:
                s = sym_of(c.children[0])
                if s is not None:
                    kids.append(s)
                    continue
            if isinstance(c, Token) and wrap is None:
                s = sym_of(c)
                if s is not None:
                    kids.append(s)
                    continue
            kids.append(rec(c))
        m = Meta()
        om = t.meta
        if getattr(om, "empty", True) is False:
            m.empty = False
            for a, b, c in (("line", "start_pos", 1), ("end_line", "end_pos", 1)):
                if hasattr(om, a):
                    setattr(m, a, aline(getattr(om, b), getattr(om, a)))
            for a in ("column", "start_pos", "end_column", "end_pos"):
                if hasattr(om, a):
                    setattr(m, a, getattr(om, a))
        return Tree(t.data, kids, m)

    return rec(tree)


_wrap: dict = {}


def expression_wrapper(real):
    """name of the node a bare identifier expression is represented by, None when it is a plain token"""
    k = id(real)
    if k not in _wrap:
        t = real.parse("var zqx = [zqa, zqb]\n")
        res = "?"

        def find(n):
            nonlocal res
            for c in n.children:
                if isinstance(c, Token) and c == "zqa":
                    sib = [d for d in n.children if isinstance(d, Token) and d == "zqb"]
                    res = None if sib else n.data
                elif isinstance(c, Tree):
                    find(c)

        find(t)
        if res == "?":
            raise Unsupported("shape of identifier expressions")
        _wrap[k] = res
    return _wrap[k]


IO_METHODS = {
    "read_text", "read_bytes", "open", "write_text", "write_bytes", "touch", "mkdir", "rmdir", "unlink", "rename", "replace",
    "symlink_to", "hardlink_to", "chmod", "exists", "is_file", "is_dir", "stat", "lstat", "iterdir", "glob", "rglob", "resolve",
    "samefile", "expanduser", "absolute", "owner", "group", "is_symlink", "readlink", "cwd", "home", "walk",
}
QUIET_IO = {"resolve", "absolute", "expanduser"}


class PathMethod:
    def __init__(self, world, p, name):
        self.world, self.p, self.name = world, p, name
        self.__name__ = name

    def __call__(self, *a, **k):
        w, p, n = self.world, self.p, self.name
        if n == "read_text":
            enc = a[0] if a else k.get("encoding")
            return w.decode(p, enc, (a[1] if len(a) > 1 else k.get("errors")) or "strict")
        if n == "read_bytes":
            return ABytes(w, p)
        if n == "open":
            return w.open(p, *a, **k)
        if n in QUIET_IO:
            return p
        if n in ("exists", "is_file"):
            w.effect(f"stat {p}", kind="stat", path=str(p))
            return str(p) in w.vfs or w.is_own(p)
        w.effect(f"calls Path.{n} on {p}")
        return Stub(w, f"Path.{n}()")


class World:
    def __init__(self, repo="/repo", package="pycep"):
        self.repo = pathlib.Path(repo)
        self.package = package
        self.effects: list = []
        self.grammar_reads: set = set()
        self.vfs: dict = {}
        self.thread = 0  # the thread that runs
        self.held = 0  # locks that are held
        self.reads: list = []
        self.caches: list = []
        self.larks: list = []
        self.trees: dict = {}
        self.sources: dict = {}
        self.interp = Interp(self)
        self.modules: dict = {}
        self.models: dict = {}
        self.load_all()

    # ------------------------------------------------------------ sources
    def files(self):
        return sorted((self.repo / self.package).rglob("*.py"))

    def source_of(self, path):
        path = pathlib.Path(path)
        if path not in self.sources:
            self.sources[path] = path.read_text(encoding="utf-8")
        return self.sources[path]

    def tree_of(self, path):
        path = pathlib.Path(path)
        if path not in self.trees:
            self.trees[path] = ast.parse(self.source_of(path), str(path))
        return self.trees[path]

    def load_all(self):
        """(re)load every module of the package from its syntax tree"""
        self.modules = {}
        self.caches = []
        self.larks = []
        self.models = {}
        self.import_effects = []
        self.effects = []
        LarkModel.world = self
        self.top = self.load(self.package)
        self.import_effects = self.effects
        self.effects = []
        self.baseline = self.fingerprint()

    def find(self, name):
        base = self.repo.joinpath(*name.split("."))
        if (base / "__init__.py").is_file():
            return base / "__init__.py", True
        f = base.with_suffix(".py")
        if f.is_file():
            return f, False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name].obj
        path, pkg = self.find(name)
        if path is None:
            native.import_error(f"No module named {name!r}")
        parent = name.rpartition(".")[0]
        if parent:
            self.load(parent)
        m = Module(name, path, self)
        m.tree = self.tree_of(path)
        m.ns.update(__name__=name, __file__=str(path), __package__=name if pkg else parent)
        if pkg:
            m.ns["__path__"] = [str(path.parent)]
        self.modules[name] = m
        try:
            self.interp.run_module(m)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent:
            setattr(self.modules[parent].obj, name.rpartition(".")[2], m.obj)
        return m.obj

    # ------------------------------------------------------------ imports
    def import_(self, name, mod):
        top = name.split(".")[0]
        if top == self.package:
            self.load(name)
            return self.modules[top].obj
        m = self.model(top)
        # make submodules reachable
        if isinstance(m, types.ModuleType) and "." in name:
            importlib.import_module(name)
        return m

    def import_from(self, module, level, mod):
        if level:
            base = mod.ns["__package__"].split(".")
            base = base[: len(base) - (level - 1)]
            full = ".".join(base + ([module] if module else []))
        else:
            full = module
        if full.split(".")[0] == self.package:
            return self.load(full)
        return self.model(full)

    def from_attr(self, m, name, node, mod):
        if isinstance(m, types.ModuleType) and m.__name__.split(".")[0] == self.package:
            if hasattr(m, name):
                return getattr(m, name)
            sub = f"{m.__name__}.{name}"
            if self.find(sub)[0] is not None:
                return self.load(sub)
            native.import_error(f"cannot import name {name!r} from {m.__name__!r}")
        if isinstance(m, types.ModuleType) and not hasattr(m, name):
            try:
                return self.model(f"{m.__name__}.{name}")
            except ImportError:
                native.import_error(f"cannot import name {name!r} from {m.__name__!r}")
        return native.attr(m, name)

    def model(self, name):
        if name in self.models:
            return self.models[name]
        self.models[name] = r = self._model(name)
        return r

    def _model(self, name):
        top = name.split(".")[0]
        if name == "regex":
            return re
        if top == "lark":
            real = importlib.import_module(name)
            if name in ("lark", "lark.lark"):
                return Proxy2(real, {"Lark": LarkModel})
            return real
        if name in PURE or (top in PURE and top not in ("re",)):
            try:
                real = importlib.import_module(name)
            except ImportError:
                return Stub(self, name)
            if name == "functools":
                return Proxy2(real, {"lru_cache": self._lru_cache, "cache": lambda f: ILru(self, f)})
            return real
        if top in SILENT:
            return Silent(name)
        if name == "pathlib":
            return pathlib
        if name in ("importlib.resources", "importlib_resources"):
            return Proxy(self, name, {
                "files": self.package_dir,
                "read_text": lambda pkg, n, encoding="utf-8", errors="strict": self.read_source(self.package_dir(pkg) / n),
                "open_text": lambda pkg, n, encoding="utf-8", errors="strict": AFile(self, self.package_dir(pkg) / n, "r", encoding),
                "as_file": lambda p: _Null(p),
            })
        if name == "importlib":
            return Proxy(self, name, {"resources": self.model("importlib.resources")})
        if name == "pkgutil":
            return Proxy(self, name, {"get_data": lambda pkg, n: ABytes(self, self.package_dir(pkg) / n)})
        if name in ("os", "posix"):
            return Proxy(self, name, {"path": self.model("os.path"), "fspath": os.fspath, "PathLike": os.PathLike, "sep": "/",
                                      "linesep": "\n", "name": "posix"})
        if name in ("os.path", "posixpath"):
            return Proxy(self, name, {k: getattr(os.path, k) for k in (
                "join", "dirname", "basename", "splitext", "normpath", "split", "isabs", "sep", "commonpath", "relpath")} | {
                "abspath": lambda p: str(p), "realpath": lambda p: str(p)})
        if name == "sys":
            return Proxy(self, name, {"version_info": sys.version_info, "intern": lambda s: s, "maxsize": sys.maxsize,
                                      "platform": sys.platform, "getrecursionlimit": sys.getrecursionlimit,
                                      "byteorder": sys.byteorder, "implementation": sys.implementation})
        if name in ("io", "codecs"):
            return Proxy(self, name, {"open": self.open, "StringIO": importlib.import_module("io").StringIO} if name == "io"
                         else {"open": self.open})
        if name == "threading":
            return Proxy(self, name, {k: (lambda: ALock(self)) for k in ("Lock", "RLock")} | {
                "local": lambda: ALocal(self), "get_ident": lambda: 7000 + self.thread})
        return Stub(self, name)

    def _lru_cache(self, maxsize=128, typed=False):
        if callable(maxsize):
            return ILru(self, maxsize)
        return lambda f: ILru(self, f)

    def package_dir(self, package=None):
        if package is None:
            package = self.package
        name = package if isinstance(package, str) else package.__name__
        return self.repo.joinpath(*name.split("."))

    # ------------------------------------------------------------ effects and files
    def effect(self, what, kind="other", path=None):
        e = Effect(what, CTX.path.loc)
        e.kind, e.path = kind, path
        self.effects.append(e)

    def effect_builtin(self, name):
        if name == "open":
            return self.open
        if name == "print":
            return lambda *a, **k: self.effect("prints")
        return Stub(self, name)

    def is_own(self, p):
        p = pathlib.Path(os.path.normpath(p))
        return (self.repo / self.package) in p.parents and p.is_file()

    def read_source(self, p):
        if CTX.path is not None and CTX.path.loc:
            self.grammar_reads.add((str(CTX.path.loc[0]), CTX.path.loc[1]))
        p = pathlib.Path(os.path.normpath(p))
        if not self.is_own(p):
            native.throw(FileNotFoundError(str(p)))
        return p.read_text(encoding="utf-8")

    def decode(self, p, encoding, errors="strict"):
        p = pathlib.Path(os.path.normpath(str(p)))
        enc = encoding.lower().replace("_", "-") if isinstance(encoding, str) else encoding
        self.effect(f"reads {p}", kind="read", path=str(p))
        self.reads.append((str(p), enc, errors, CTX.path.loc))
        if str(p) in self.vfs:
            return self.vfs[str(p)]
        if self.is_own(p):
            return p.read_text(encoding="utf-8")
        native.throw(FileNotFoundError(str(p)))

    def open(self, path, mode="r", buffering=-1, encoding=None, errors="strict", newline=None, **_):
        path = force(path)
        if isinstance(path, (AStr, AToken)):
            path = conc(path)
        p = pathlib.Path(os.path.normpath(str(path)))
        if any(c in mode for c in "wax+"):
            self.effect(f"opens {p} for writing", kind="write", path=str(p))
        else:
            self.effect(f"opens {p}", kind="stat", path=str(p))
        return AFile(self, p, mode, encoding, errors or "strict")

    # ------------------------------------------------------------ hooks of the interpreter
    def attr(self, o, name):
        if isinstance(o, pathlib.PurePath) and name in IO_METHODS:
            return PathMethod(self, o, name)
        if isinstance(o, type) and issubclass(o, pathlib.PurePath) and name in IO_METHODS:
            return lambda p=None, *a, **k: PathMethod(self, p, name)(*a, **k)
        return getattr_(o, name)

    def call_model(self, f, args, kw):
        if isinstance(f, types.FunctionType) and f.__module__ == "re":
            n = f.__name__
            if n == "compile":
                return native.call(re.compile, [deep_conc(a) for a in args], kw)
            if n in ("match", "fullmatch", "search", "split", "findall", "finditer", "sub", "subn"):
                a = list(args)
                pat = a.pop(0) if a else kw.pop("pattern")
                flags = kw.pop("flags", 0)
                npos = 2 if n in ("sub", "subn") else 1
                if n in ("match", "fullmatch", "search", "findall", "finditer") and len(a) > npos:
                    flags = a.pop()
                p = pat if isinstance(pat, re.Pattern) else native.call(re.compile, [conc(pat), flags], {})
                return self.interp.pattern_call(p, n, a, kw)
            return native.call(f, [deep_conc(a) for a in args], {k: deep_conc(v) for k, v in kw.items()})
        if isinstance(f, type) and issubclass(f, pathlib.PurePath):
            return native.call(f, [deep_conc(a) for a in args], kw)
        if isinstance(f, (PathMethod, Stub, SilentCall, ILru, LarkModel)) or f is LarkModel or isinstance(
                getattr(f, "__self__", None), (World, LarkModel, ABytes, AFile, ILru)):
            return native.call(f, args, kw)
        if isinstance(f, types.MethodType) and isinstance(f.__func__, ILru):
            return native.call(f, args, kw)
        if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.startswith("bsa"):
            return native.call(f, args, kw)
        if isinstance(f, types.FunctionType) and f.__module__ == "typing":
            return native.call(f, args, kw)
        return NotImplemented

    def is_program(self, f):
        m = getattr(f, "__module__", None)
        return isinstance(m, str) and m.split(".")[0] == self.package

    def is_program_obj(self, o):
        return self.is_program(type(o))

    # ------------------------------------------------------------ state of the modules
    def fingerprint(self):
        """structure of everything reachable from module globals (identity of mutable containers by order of visit)"""
        out = []
        seen: dict = {}

        def rec(v, depth):
            if isinstance(v, (int, float, bytes, bool, type(None))) or type(v) is str:
                out.append(v)
                return
            if isinstance(v, (AStr, AInt, Sym)):
                out.append(repr(v))
                return
            i = id(v)
            if i in seen:
                out.append(("@", seen[i]))
                return
            seen[i] = len(seen)
            keep.append(v)
            if isinstance(v, dict):
                out.append(("d", len(v)))
                for k, x in list(v.items()):
                    rec(k, depth + 1)
                    rec(x, depth + 1)
            elif isinstance(v, (list, tuple)):
                out.append(("l", len(v)))
                for x in v:
                    rec(x, depth + 1)
            elif isinstance(v, (set, frozenset)):
                out.append(("s", len(v)))
                for x in sorted(v, key=repr):
                    rec(x, depth + 1)
            elif isinstance(v, IFunc):
                out.append("f")
                rec(list(v.defaults), depth + 1)
                rec(v.kwdefaults, depth + 1)
                rec({k: x for k, x in v.__dict__.items() if k not in IFUNC_OWN}, depth + 1)
                e = v.env
                while e is not None and e.kind != "module":
                    if e.kind == "func":
                        rec(e.vars, depth + 1)
                    e = e.parent
            elif isinstance(v, ILru):
                out.append(("lru", len(v.entries)))
                rec(v.f, depth + 1)
            elif isinstance(v, type):
                if self.is_program(v):
                    for k, x in list(vars(v).items()):
                        if k not in ("__dict__", "__weakref__", "__doc__", "__annotations__", "__abstractmethods__", "_abc_impl",
                                     "__parameters__", "__orig_bases__", "__module__"):
                            out.append(k)
                            rec(x, depth + 1)
            elif self.is_program(type(v)):
                rec(getattr(v, "__dict__", {}), depth + 1)
            elif isinstance(v, (staticmethod, classmethod)):
                rec(v.__func__, depth + 1)
            elif isinstance(v, property):
                rec([v.fget, v.fset, v.fdel], depth + 1)
            elif type(v).__module__.startswith("lark") and hasattr(v, "__dict__") and not isinstance(v, types.ModuleType):
                b = getattr(v, "base_func", None)
                if b is not None:
                    rec(b, depth + 1)
            else:
                out.append(type(v).__name__)

        keep: list = []
        for n in sorted(self.modules):
            if n.endswith(".typing"):
                continue
            out.append(n)
            for k, v in self.modules[n].ns.items():
                if not k.startswith("__") and not isinstance(v, types.ModuleType):
                    out.append(k)
                    rec(v, 0)
        for c in self.caches:
            out.append(len(c.entries))
        return hash(tuple(map(repr, out)))

    def reset(self):
        """bring the program back to its freshly imported state if an execution changed it"""
        if self.fingerprint() != self.baseline:
            self.load_all()
            return True
        self.effects = []
        self.reads = []
        self.thread = self.held = 0
        self.larks = self.larks[:0]
        return False

    @property
    def BicepElement(self):
        return self.load(f"{self.package}.models").BicepElement

    def parser(self, **kw):
        cls = native.attr(self.top, "BicepParser")
        return self.interp.call(cls, [], kw)

    def parse(self, text, add_line_numbers=False, parser=None):
        p = parser or self.parser(add_line_numbers=add_line_numbers)
        return self.interp.call(native.attr(p, "parse"), [], {"text": text})


IFUNC_OWN = {"node", "env", "interp", "__name__", "__qualname__", "__module__", "__doc__", "__defaults__", "defaults",
             "kwdefaults", "__kwdefaults__", "__annotations__", "locals_", "globs", "nonls", "isgen"}


class ALock:
    """a lock; another thread does not take over while any lock is held"""

    def __init__(self, world):
        self.world = world
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        self.count += 1
        self.world.held += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        self.world.held -= 1

    def locked(self):
        return self.count > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return False


class ALocal:
    """threading.local"""

    def __init__(self, world):
        object.__setattr__(self, "_own", {})
        object.__setattr__(self, "_world", world)

    def __getattribute__(self, name):
        own = object.__getattribute__(self, "_own").setdefault(object.__getattribute__(self, "_world").thread, {})
        if name == "__dict__":
            return own
        if name in own:
            return own[name]
        if name.startswith("__"):
            return object.__getattribute__(self, name)
        raise AttributeError(f"'_thread._local' object has no attribute {name!r}")

    def __setattr__(self, name, v):
        self.__dict__[name] = v

    def __delattr__(self, name):
        if name not in self.__dict__:
            raise AttributeError(name)
        del self.__dict__[name]


class _Null:
    def __init__(self, v=None):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return False

    def acquire(self, *a, **k):
        return True

    def release(self):
        return None


class Proxy2:
    """a real module with a few attributes replaced"""

    def __init__(self, real, repl):
        self.__dict__.update(repl)
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        return getattr(self._real, name)
