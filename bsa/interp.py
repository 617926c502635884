"""Abstract interpreter for Python syntax trees (trace partitioning over the values of ``dom``)."""
from __future__ import annotations

import ast
import builtins
import collections.abc
import contextlib
import functools
import re
import sys
import threading
import types

from lark import Token

from . import native
from . import relang as R
from .dom import (
    CTX, AInt, AStr, AToken, Budget, Engine, Hole, Sym, UNKNOWN, Unsupported, as_astr, candidates, conc, conc_int, decide,
    force, int_cmp, int_op, mk, observe, resolved, segs_of, set_lang, smeth, snorm, static_eq, static_truth, str_eq,
    str_item, str_lang, str_len, str_truth, to_int, hole_lang,
)

STEP_LIMIT = 3_000_000


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Missing:
    def __repr__(self):
        return "<unbound>"


MISSING = _Missing()


class Env:
    __slots__ = ("vars", "parent", "module", "kind", "globals_", "nonlocals", "locals_", "cell", "cname", "func", "args0",
                 "gen")

    def __init__(self, vars_, parent, module, kind, cname=None):
        self.vars, self.parent, self.module, self.kind = vars_, parent, module, kind
        self.globals_ = ()
        self.nonlocals = ()
        self.locals_ = ()
        self.cell = parent.cell if parent is not None and kind != "class" else None
        self.cname = cname if cname is not None else (parent.cname if parent else None)
        self.func = None
        self.args0 = MISSING
        self.gen = None


class Module:
    """a loaded module of the analysed program"""

    def __init__(self, name, path, world):
        self.name, self.path, self.world = name, path, world
        self.obj = types.ModuleType(name)
        self.ns = self.obj.__dict__
        self.tree = None


@contextlib.contextmanager
def registered(module):
    """class builders of the standard library (dataclass, NamedTuple, Enum) look the module of a class up by its name"""
    before = sys.modules.get(module.name)
    sys.modules[module.name] = module.obj
    try:
        yield
    finally:
        if before is None:
            sys.modules.pop(module.name, None)
        else:
            sys.modules[module.name] = before


def _locals(node):
    out, glob, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets leak
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        walk(b)
    return out - glob - nonl, glob, nonl


def _has_yield(node):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))

    body = node.body if isinstance(node.body, list) else [node.body]
    return any(walk(b) for b in body)


FORKS: dict = {}
HEAVY: set = set()


class IFunc:
    """a function of the analysed program"""
    # what makes the function is not in its dictionary: functools.wraps copies that from one function to another
    __slots__ = ("node", "env", "interp", "defaults", "kwdefaults", "locals_", "globs", "nonls", "isgen", "__dict__", "__weakref__")

    def __init__(self, node, env, interp, name, defaults, kwdefaults):
        self.node, self.env, self.interp = node, env, interp
        self.__name__ = name
        self.__qualname__ = name
        self.__module__ = env.module.name
        self.__doc__ = ast.get_docstring(node) if not isinstance(node, ast.Lambda) else None
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__annotations__ = {}
        info = interp.fninfo.get(node)
        if info is None:
            info = interp.fninfo[node] = (*_locals(node), _has_yield(node))
        self.locals_, self.globs, self.nonls, self.isgen = info

    __defaults__ = property(lambda self: tuple(self.defaults) or None)
    __kwdefaults__ = property(lambda self: self.kwdefaults or None)

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __call__(self, *args, **kw):
        return self.interp.call_ifunc(self, args, kw)

    def __repr__(self):
        return f"<function {self.__name__}>"


class AMatch:
    """a successful match of a pattern on an abstract string"""

    def __init__(self, pattern, mode, x):
        self.pattern, self.mode, self.x = pattern, mode, x
        self.cache = {}
        self.concrete = None

    re = property(lambda self: self.pattern)
    string = property(lambda self: snorm(self.x))

    def _conc(self):
        if self.concrete is None:
            t = conc(self.x)
            self.concrete = getattr(self.pattern, self.mode)(t)
            if self.concrete is None:
                raise Unsupported("pattern model and pattern disagree")
        return self.concrete

    def _index(self, g):
        if isinstance(g, (AStr, AToken)):
            g = conc(g)
        if isinstance(g, str):
            if g not in self.pattern.groupindex:
                native.index_error("no such group")
            return self.pattern.groupindex[g]
        g = conc_int(g)
        if not 0 <= g <= self.pattern.groups:
            native.index_error("no such group")
        return g

    def one(self, g):
        i = self._index(g)
        if self.concrete is not None:
            return self.concrete.group(i)
        if i in self.cache:
            return self.cache[i]
        x = snorm(self.x)
        if not isinstance(x, AStr):
            return self._conc().group(i)
        if i == 0 and self.mode == "fullmatch":
            return x
        r = segment(self.pattern, self.mode, x, i)
        if r is None:
            return self._conc().group(i)
        self.cache[i] = r
        return r

    def group(self, *gs):
        if not gs:
            return self.one(0)
        if len(gs) == 1:
            return self.one(gs[0])
        return tuple(self.one(g) for g in gs)

    def __getitem__(self, g):
        return self.one(g)

    def groups(self, default=None):
        r = [self.one(i) for i in range(1, self.pattern.groups + 1)]
        return tuple(default if v is None else v for v in r)

    def groupdict(self, default=None):
        r = {n: self.one(i) for n, i in self.pattern.groupindex.items()}
        return {n: default if v is None else v for n, v in r.items()}

    def start(self, g=0):
        return self._conc().start(g)

    def end(self, g=0):
        return self._conc().end(g)

    def span(self, g=0):
        return self._conc().span(g)

    @property
    def lastgroup(self):
        return self._conc().lastgroup

    @property
    def lastindex(self):
        return self._conc().lastindex

    def expand(self, t):
        return self._conc().expand(t)


_FLAGMASK = re.I | re.S | re.M | re.X | re.A


def _pat(p):
    """(pattern text, flags) for the relang module"""
    return p.pattern, int(p.flags & _FLAGMASK)


def pattern_lang(p, mode):
    src, fl = _pat(p)
    try:
        if mode == "fullmatch":
            return R.lang(src, fl)
        if mode == "match":
            return _memo_re(("m", src, fl), lambda: R.erase(R.matches(src, fl), R.END))
        pre = "(?s:.*?)(?:" + src + "\n)" if fl & re.X else "(?s:.*?)(?:" + src + ")"
        return _memo_re(("s", src, fl), lambda: R.erase(R.matches(pre, fl), R.END))
    except R.Unsupported as e:
        return None


_re_cache: dict = {}


def _memo_re(k, f):
    if k not in _re_cache:
        _re_cache[k] = f()
    return _re_cache[k]


def segment(p, mode, x, gi):
    """the segments of group ``gi``, when the split is the same for every word of x; else None"""
    if mode == "search":
        return None
    rep = x.rep()
    m = getattr(p, mode)(rep)
    if m is None or m.start(gi) < 0:
        return None
    a, b = m.span(gi)
    cut = _cut_at(x, a, b)
    if cut is None:
        return None
    before, mid, after = cut
    src, fl = _pat(p)
    if mode == "match":
        src = src + "(?s:.*)"
    try:
        t = R.parse(src, fl)
        bld = R.Builder(t.state.flags, {gi: (R.mark(1), R.mark(2))}) if gi else None
        if bld is None:
            return None
        s = bld.nfa.new()
        e = bld.seq(list(t), s, t.state.flags)
        marked = R.determinize(bld.nfa, s, e, bld.uses_prev)
        both = R.mark(1) | R.mark(2)

        def lang(segs):
            return R.concat(R.EPS, *[hole_lang(q) if isinstance(q, Hole) else R.word(q) for q in segs])

        cand = R.concat(lang(before), R.from_mask(R.mark(1)), lang(mid), R.from_mask(R.mark(2)), lang(after))
        if not marked.includes(cand):
            return None
        allm = marked & R.loops(str_lang(x), both)
        if not cand.includes(allm):
            return None
    except R.Unsupported:
        return None
    return mk(mid)


def _cut_at(x, a, b):
    parts = [[], [], []]
    pos = 0
    from .dom import rep_word
    for s in x.segs:
        w = rep_word(s) if isinstance(s, Hole) else s
        end = pos + len(w)
        if isinstance(s, Hole):
            if (pos < a < end) or (pos < b < end):
                return None
            if len(w) == 0:
                return None
            k = 0 if end <= a else 1 if end <= b else 2
            if k == 1 and pos < a:
                return None
            parts[k].append(s)
        else:
            for k, (lo, hi) in enumerate(((0, a), (a, b), (b, 10**9))):
                t = s[max(lo - pos, 0): max(hi - pos, 0)]
                if t:
                    parts[k].append(t)
        pos = end
    return parts


class LitMatch:
    """a match of a pattern of plain characters, its place unknown"""

    def __init__(self, sep):
        self.sep = sep

    def group(self, *gs):
        if gs not in ((), (0,)):
            native.index_error("no such group")
        return self.sep

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return ()

    def __getattr__(self, name):
        raise Unsupported(f"match.{name}")


def literal(p):
    """the text a pattern of plain characters stands for, else None"""
    src, fl = _pat(p)
    if not src or fl & (re.I | re.X):
        return None
    try:
        t = list(re._parser.parse(src, fl))
    except re.error:
        return None
    return _plain(t)


def _plain(t):
    out = ""
    for op, c in t:
        if op is re._constants.LITERAL:
            out += chr(c)
        elif op is re._constants.MAX_REPEAT and c[0] == c[1] < 64:
            sub = _plain(c[2])
            if not sub:
                return None
            out += sub * c[0]
        else:
            return None
    return out


def re_call(mode, p, x, rest, kw):
    """a method of a compiled pattern on an abstract string"""
    x = snorm(x)
    if not isinstance(x, AStr):
        rest = [deep_conc(r) if not callable(r) else r for r in rest]
        return native.call(native.attr(p, mode), [x, *rest], kw)
    if mode in ("match", "fullmatch", "search") and not rest and not kw:
        d = pattern_lang(p, mode)
        if d is not None:
            if decide(x, d, f"re.{mode}"):
                y = snorm(x)
                if not isinstance(y, AStr):
                    return native.call(native.attr(p, mode), [y], {})
                return AMatch(p, mode, y)
            return None
    elif mode in ("split", "findall", "finditer") and not rest and not kw and literal(p):
        sep = literal(p)
        if mode == "split":
            return smeth("split", x, [sep], {})
        n = smeth("count", x, [sep], {})
        if type(n) is int:
            return [sep] * n if mode == "findall" else iter([LitMatch(sep) for _ in range(n)])
        x = snorm(x)
    elif mode in ("sub", "subn", "split", "findall", "finditer"):
        d = pattern_lang(p, "search")
        if d is not None:
            y, xx = (x, x)
            if mode in ("sub", "subn"):
                pass
            if not decide(xx, d, f"re.{mode}"):
                y = snorm(xx)
                return {"sub": y, "subn": (y, 0), "split": [y], "findall": [], "finditer": iter(())}[mode]
            x = snorm(x)
    if mode in ("sub", "subn"):
        raise AssertionError
    return native.call(native.attr(p, mode), [conc(x), *[deep_conc(r) for r in rest]], kw)


def re_sub(p, repl, x, mode, rest, kw):
    x = snorm(x)
    if isinstance(x, AStr):
        d = pattern_lang(p, "search")
        if d is not None and not decide(x, d, f"re.{mode}"):
            y = snorm(x)
            return y if mode == "sub" else (y, 0)
        x = conc(x)
    if not callable(repl):
        repl = conc(repl)
    return native.call(native.attr(p, mode), [repl, x, *rest], kw)


def deep_abstract(v, depth=0):
    if isinstance(v, (AStr, AToken, AInt, Sym)):
        return True
    if depth > 6:
        return False
    if isinstance(v, dict):
        return any(deep_abstract(k, depth + 1) or deep_abstract(x, depth + 1) for k, x in v.items())
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(deep_abstract(x, depth + 1) for x in v)
    return False


def deep_conc(v, depth=0):
    if depth > 12:
        raise Unsupported("deep value")
    v = force(v) if isinstance(v, Sym) else v
    if isinstance(v, AToken):
        return conc(v)
    if isinstance(v, AStr):
        n = v.norm()
        if isinstance(n, AStr):
            for h in n.holes():
                conc(mk([h]))
            n = n.norm()
        return n
    if isinstance(v, AInt):
        return conc_int(v)
    if type(v) is dict:
        return {deep_conc(k, depth + 1): deep_conc(x, depth + 1) for k, x in v.items()}
    if type(v) in (list, tuple, set, frozenset):
        return type(v)(deep_conc(x, depth + 1) for x in v)
    return v


def class_of(v):
    if isinstance(v, AToken):
        return Token
    if isinstance(v, AStr):
        n = v.norm()
        return n.cls if isinstance(n, AStr) else type(n)
    if isinstance(v, AInt):
        return int
    return type(v)


def is_instance(v, cls):
    if isinstance(v, Sym):
        return observe(v, lambda a: is_instance(a, cls), "isinstance")
    if isinstance(v, (AStr, AInt, AToken)):
        return native.call(issubclass, [class_of(v), cls], {})
    return native.call(isinstance, [v, cls], {})


def truth(v):
    if isinstance(v, Sym):
        r = observe(v, static_truth, "truth")
        if r is UNKNOWN:
            return truth(resolved(v)[0])
        return r
    if isinstance(v, (AStr, AToken)):
        return str_truth(v)
    if isinstance(v, AInt):
        return bool(v)
    return native.truth(v)


def iterate(v):
    v = force(v)
    if isinstance(v, (AStr, AToken)):
        return iter(conc(v))
    return native.iterate(v)


def length(v):
    v = force(v)
    if isinstance(v, (AStr, AToken)):
        return str_len(v)
    return native.length(v)


def to_str(v):
    if isinstance(v, Sym):
        v = force(v)
    if isinstance(v, AToken):
        return snorm(v.astr)
    if isinstance(v, AStr):
        n = v.norm()
        if isinstance(n, AStr):
            f = _override(n.cls, "__str__")
            if f is not None:
                return f.__get__(n, n.cls)()
            return AStr(n.segs)
        return native.call(str, [n], {})
    if isinstance(v, AInt):
        return str(conc_int(v))
    if type(v) in (dict, list, tuple, set) and deep_abstract(v):
        return str(deep_conc(v))
    return native.call(str, [v], {})


def _override(cls, name):
    for k in cls.__mro__:
        if k is str:
            return None
        if name in k.__dict__:
            return k.__dict__[name]
    return None


def format_value(v, conv, spec):
    if isinstance(v, Sym):
        v = force(v)
    if conv in (114, "r", 97, "a"):
        v = repr(deep_conc(v))
    elif conv in (115, "s"):
        v = to_str(v)
    if spec:
        spec = conc(spec)
    if isinstance(v, (AStr, AToken)) and spec in ("", "s"):
        return to_str(v)
    if not spec:
        if isinstance(v, str):
            return native.call(format, [v, ""], {})
        return to_str(v)
    return native.call(format, [deep_conc(v), spec], {})


# ----------------------------------------------------------------- dict operations with abstract keys
def _abs_key(k):
    return isinstance(k, (AStr, AToken))


_keys_lang: dict = {}


def dkey(d, k):
    """the key object of ``d`` equal to ``k``, or ``k`` itself"""
    if isinstance(k, Sym):
        k = force(k)
    if isinstance(k, AInt):
        k = conc_int(k)
    if isinstance(k, (AStr, AToken)):
        x = snorm(k)
        if not isinstance(x, AStr):
            if isinstance(k, AStr):
                k = x
        else:
            words = tuple(kk for kk in d if isinstance(kk, str) and not isinstance(kk, (AToken,)))
            if words:
                lg = _keys_lang.get(words)
                if lg is None:
                    lg = R.words(*words)
                    _keys_lang[words] = lg
                if len(x.segs) <= 6 and not (str_lang(x) & lg).empty():
                    for kk in words:
                        if str_eq(x, kk):
                            return kk
            for kk in list(d):
                if _abs_key(kk) and str_eq(kk, x):
                    return kk
            return k
    if isinstance(k, str):
        for kk in list(d):
            if _abs_key(kk) and str_eq(kk, k):
                return kk
        return k
    if isinstance(k, tuple) and deep_abstract(k):
        for kk in list(d):
            if isinstance(kk, tuple) and len(kk) == len(k) and values_equal(kk, k):
                return kk
    return k


def values_equal(a, b):
    return bool(compare("Eq", a, b))


DICT_METHODS = {"get", "setdefault", "pop", "__getitem__", "__setitem__", "__delitem__", "__contains__", "update",
                "__or__", "__ior__"}


def dict_method(d, name, args, kw):
    if name in ("update", "__ior__"):
        if args:
            src = force(args[0])
            items = [(k, native.getitem(src, k)) for k in list(src.keys())] if hasattr(src, "keys") else [
                tuple(iterate(p)) for p in iterate(src)]
            for k, v in items:
                dict_set(d, k, v)
        for k, v in kw.items():
            dict_set(d, k, v)
        return d if name == "__ior__" else None
    if name == "__or__":
        r = dict(d)
        dict_method(r, "update", args, {})
        return r
    k = dkey(d, args[0])
    rest = list(args[1:])
    if name == "setdefault" and k not in d:
        d[k] = rest[0] if rest else None
        return d[k]
    return native.call(getattr(dict, name) if type(d) is dict else native.attr(d, name),
                       ([d] if type(d) is dict else []) + [k, *rest], kw)


def dict_set(d, k, v):
    native.setitem(d, dkey(d, k), v)


def make_dict(args, kw):
    d = {}
    if args:
        dict_method(d, "update", args[:1], {})
    d.update(kw)
    return d


# ----------------------------------------------------------------- operators
def compare(op, a, b):
    if op == "Is" or op == "IsNot":
        r = identical(a, b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(b, a)
        return r if op == "In" else not r
    if isinstance(a, (AStr, AToken)) and op in ("Eq", "NotEq"):
        r = str_eq(a, b) if not isinstance(a, AToken) else AToken.__eq__(a, b)
        return r if op == "Eq" else not r
    if isinstance(b, (AStr, AToken)) and op in ("Eq", "NotEq") and not isinstance(a, Sym):
        if as_astr(a) is None:
            return op == "NotEq"
        r = str_eq(b, a) if not isinstance(b, AToken) else AToken.__eq__(b, a)
        return r if op == "Eq" else not r
    if (isinstance(a, Sym) or isinstance(b, Sym)):
        if op in ("Eq", "NotEq"):
            r = (a == b) if isinstance(a, Sym) else (b == a)
            return r if op == "Eq" else not r
        a, b = force(a), force(b)
        return compare(op, a, b)
    if isinstance(a, AInt) or isinstance(b, AInt):
        if op in ("Eq", "NotEq") or (_num(a) and _num(b)):
            return int_cmp(op, a, b)
        native.type_error(f"'{op}' not supported between instances")
    if isinstance(a, (AStr, AToken)) or isinstance(b, (AStr, AToken)):
        if as_astr(a) is None or as_astr(b) is None:
            native.type_error(f"'{op}' not supported between instances")
        return native.compare(op, conc(a), conc(b))
    if op in ("Eq", "NotEq") and type(a) is type(b) and type(a) in (dict, list, tuple) and (deep_abstract(a) or deep_abstract(b)):
        r = _deep_eq(a, b)
        return r if op == "Eq" else not r
    return native.compare(op, a, b)


def _deep_eq(a, b):
    if a is b:
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k, v in a.items():
            kk = dkey(b, k)
            if kk not in b or not values_equal(v, b[kk]):
                return False
        return True
    if len(a) != len(b):
        return False
    return all(values_equal(x, y) for x, y in zip(a, b))


def _num(x):
    return isinstance(x, (AInt, int, float))


def identical(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
            return True
        s, o = (a, b) if isinstance(a, Sym) else (b, a)
        if o is None or o is True or o is False:
            return observe(s, lambda v: v is o, "is")
        if isinstance(o, type) or o is Ellipsis or not isinstance(o, (str, int, list, dict, AStr, AInt, Sym)):
            return False
        return force(s) is force(o)
    return a is b


def contains(c, x):
    c = force(c)
    if isinstance(c, (AStr, AToken)):
        return smeth("__contains__", c, (force(x),), {})
    if isinstance(c, str) and isinstance(x, (AStr, AToken, Sym)):
        return smeth("__contains__", c, (force(x),), {})
    if isinstance(c, dict) or isinstance(c, (set, frozenset, collections.abc.KeysView)):
        if isinstance(x, Sym):
            x = force(x)
        if isinstance(x, (AStr, AToken, tuple)) or (isinstance(x, str) and any(_abs_key(k) for k in c)):
            k = dkey(c, x)
            return any(k is kk or (type(k) is str and type(kk) is str and k == kk) for kk in c) if not _abs_key(k) else any(
                k is kk for kk in c)
        if isinstance(x, (list, dict)) or isinstance(x, AInt):
            return native.contains(c, conc_int(x) if isinstance(x, AInt) else x)
        return native.contains(c, x)
    if isinstance(c, (list, tuple, collections.abc.ValuesView)):
        for y in c:
            if y is x or values_equal(x, y):
                return True
        return False
    return native.contains(c, x)


def binop(op, a, b, inplace=False):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if op != "Mod" or isinstance(a, Sym):
            a = force(a)
        if isinstance(b, Sym):
            b = force(b)
    sa, sb = as_astr(a), as_astr(b)
    if (isinstance(a, (AStr, AToken)) or isinstance(b, (AStr, AToken)) or isinstance(sa, str)) and op == "Add" and sa is not None:
        if sb is None:
            native.type_error("can only concatenate str")
        if isinstance(snorm(a), AStr) or isinstance(snorm(b), AStr):
            return mk(segs_of(a) + segs_of(b))
        return native.binop(op, snorm(a), snorm(b))
    if op == "Mod" and sa is not None:
        return percent(snorm(a), b)
    if isinstance(a, (AStr, AToken)):
        a = conc(a)
    if isinstance(b, (AStr, AToken)):
        b = conc(b)
    if isinstance(a, AInt) or isinstance(b, AInt):
        if op in ("Add", "Sub", "Mult") and (_num(a) and _num(b)):
            return int_op(op, a, b)
        a, b = (conc_int(v) if isinstance(v, AInt) else v for v in (a, b))
    if op == "BitOr" and isinstance(a, dict) and isinstance(b, dict):
        return dict_method(a, "__ior__" if inplace else "__or__", [b], {})
    if op in ("Sub", "BitAnd", "BitOr", "BitXor") and isinstance(a, (set, frozenset)) and (deep_abstract(a) or deep_abstract(b)):
        a = deep_conc(a)
        b = deep_conc(b)
    return native.ibinop(op, a, b) if inplace else native.binop(op, a, b)


def percent(fmt, arg):
    fmt = conc(fmt)
    if isinstance(arg, dict):
        return native.binop("Mod", fmt, deep_conc(arg))
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if not any(deep_abstract(a) for a in args):
        return native.binop("Mod", fmt, arg)
    parts = re.split(r"(%[srd%])", fmt)
    out = []
    for q in parts:
        if q == "%%":
            out.append("%")
        elif q in ("%s", "%r", "%d"):
            if not args:
                native.type_error("not enough arguments for format string")
            a = args.pop(0)
            out += segs_of(format_value(a, "r" if q == "%r" else "s", ""))
        else:
            if "%" in q:
                raise Unsupported("format")
            out.append(q)
    if args:
        native.type_error("not all arguments converted during string formatting")
    return mk(out)


def unop(op, a):
    if op == "Not":
        return not truth(a)
    a = force(a)
    if isinstance(a, (AStr, AToken)):
        native.type_error("bad operand type for unary")
    if isinstance(a, AInt) and op == "Invert":
        a = conc_int(a)
    return native.unop(op, a)


def getitem(o, k):
    o = force(o)
    if isinstance(k, Sym):
        k = force(k)
    if isinstance(o, (AStr, AToken)):
        if not isinstance(k, (int, slice, AInt)):
            native.type_error("string indices must be integers")
        return str_item(o, k)
    if isinstance(o, dict):
        if isinstance(k, (AStr, AToken, tuple)) or (isinstance(k, str) and any(_abs_key(kk) for kk in o)):
            k = dkey(o, k)
        return native.getitem(o, k)
    if isinstance(k, AInt):
        k = conc_int(k)
    if isinstance(k, slice):
        k = slice(*(conc_int(v) if isinstance(v, AInt) else v for v in (k.start, k.stop, k.step)))
    return native.getitem(o, k)


def setitem(o, k, v):
    o = force(o)
    if isinstance(o, dict):
        native.setitem(o, dkey(o, k), v)
        return
    if isinstance(k, (AInt,)):
        k = conc_int(k)
    native.setitem(o, force(k), v)


class BoundStr:
    """a method of an abstract string"""

    def __init__(self, name, x):
        self.name, self.x = name, x
        self.__name__ = name

    def __call__(self, *args, **kw):
        return smeth(self.name, self.x, args, kw)


TOKEN_ATTRS = {"type", "value", "line", "column", "end_line", "end_column", "start_pos", "end_pos"}


def getattr_(o, name):
    if isinstance(o, Sym):
        def has(v):
            try:
                return hasattr(class_of(v), name)
            except Engine:
                return UNKNOWN
        r = observe(o, has, f".{name}")
        if not r:
            native.attr_error(f"object has no attribute {name!r}")
        o = force(o)
    if isinstance(o, AToken):
        if name in TOKEN_ATTRS:
            return native.attr(o, name)
        if name == "__class__":
            return Token
        if hasattr(str, name):
            return BoundStr(name, o.astr)
        if hasattr(Token, name):
            raise Unsupported(f"token method {name}")
        native.attr_error(f"'Token' object has no attribute {name!r}")
    if isinstance(o, AStr):
        n = o.norm()
        if not isinstance(n, AStr):
            return native.attr(n, name)
        if name == "__class__":
            return n.cls
        f = _override(n.cls, name)
        if f is not None:
            return f.__get__(n, n.cls) if hasattr(f, "__get__") else f
        if hasattr(str, name):
            return BoundStr(name, n)
        native.attr_error(f"'{n.cls.__name__}' object has no attribute {name!r}")
    if isinstance(o, AInt):
        if name == "__class__":
            return int
        return native.attr(conc_int(o), name)
    return native.attr(o, name)


# ----------------------------------------------------------------- calls
def _bi_isinstance(v, cls):
    return is_instance(v, cls)


def _bi_type(*a, **k):
    if len(a) == 1 and not k:
        v = a[0]
        if isinstance(v, Sym):
            v = force(v)
        return class_of(v)
    return native.call(type, a, k)


def _bi_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    return native.call(str, a, k)


def _bi_int(*a, **k):
    if len(a) == 1 and not k:
        v = force(a[0])
        if isinstance(v, (AStr, AToken)):
            return to_int(v)
        if isinstance(v, AInt):
            return v.norm()
        return native.call(int, [v], {})
    return native.call(int, [deep_conc(x) for x in a], k)


def _bi_bool(*a):
    return truth(a[0]) if a else False


def _bi_len(v):
    return length(v)


def _bi_list(*a):
    return list(iterate(a[0])) if a else []


def _bi_tuple(*a):
    return tuple(iterate(a[0])) if a else ()


def _bi_set(*a):
    return _mkset(set, a)


def _bi_frozenset(*a):
    return _mkset(frozenset, a)


def _mkset(t, a):
    if not a:
        return t()
    d = {}
    for v in iterate(a[0]):
        if isinstance(v, Sym):
            v = force(v)
        k = dkey(d, v)
        d.setdefault(k, None)
    return t(d)


def _bi_repr(v):
    return repr(deep_conc(v))


def _bi_format(v, spec=""):
    return format_value(v, None, spec)


def _bi_getattr(o, name, *default):
    try:
        return getattr_(o, conc(name))
    except AttributeError:
        if default:
            return default[0]
        raise


def _bi_hasattr(o, name):
    try:
        getattr_(o, conc(name))
        return True
    except AttributeError:
        return False


def _bi_setattr(o, name, v):
    native.setattr_(o, conc(name), v)


def _bi_any(it):
    for v in iterate(it):
        if truth(v):
            return True
    return False


def _bi_all(it):
    for v in iterate(it):
        if not truth(v):
            return False
    return True


def _bi_filter(f, it):
    return (v for v in iterate(it) if truth(v if f is None else CURRENT.call(f, [v], {})))


def _bi_map(f, *its):
    return (CURRENT.call(f, list(vs), {}) for vs in zip(*[iterate(i) for i in its]))


def _bi_sorted(it, *, key=None, reverse=False):
    items = list(iterate(it))
    ks = [CURRENT.call(key, [v], {}) if key else v for v in items]
    ks = [deep_conc(k) if deep_abstract(k) else k for k in ks]
    order = native.call(sorted, [range(len(items))], {"key": ks.__getitem__, "reverse": reverse})
    return [items[i] for i in order]


def _bi_sum(it, start=0):
    r = start
    for v in iterate(it):
        r = binop("Add", r, v)
    return r


def _bi_ord(c):
    return native.call(ord, [conc(c)], {})


def _bi_id(v):
    return id(v)


def _bi_abs(v):
    v = force(v)
    if isinstance(v, AInt):
        return v if truth(int_cmp("GtE", v, 0)) else -v
    return native.call(abs, [v], {})


def _bi_next(it, *d):
    it = force(it)
    try:
        return native.next_(it)
    except StopIteration:
        if d:
            return d[0]
        raise


def _bi_hash(v):
    return native.call(hash, [deep_conc(v)], {})


def _bi_issubclass(a, b):
    return native.call(issubclass, [a, b], {})


def _bi_callable(v):
    return callable(v) and not isinstance(v, (AStr, AToken, AInt, Sym))


def _bi_dict(*a, **k):
    return make_dict(a, k)


def _bi_reversed(v):
    v = force(v)
    return reversed(list(conc(v)) if isinstance(v, (AStr, AToken)) else v)


BUILTIN_MODEL = {
    isinstance: _bi_isinstance, type: _bi_type, str: _bi_str, int: _bi_int, bool: _bi_bool, len: _bi_len, list: _bi_list,
    tuple: _bi_tuple, set: _bi_set, frozenset: _bi_frozenset, repr: _bi_repr, format: _bi_format, getattr: _bi_getattr,
    hasattr: _bi_hasattr, setattr: _bi_setattr, any: _bi_any, all: _bi_all, filter: _bi_filter, map: _bi_map,
    sorted: _bi_sorted, sum: _bi_sum, ord: _bi_ord, abs: _bi_abs, next: _bi_next, hash: _bi_hash, issubclass: _bi_issubclass,
    callable: _bi_callable, dict: _bi_dict, reversed: _bi_reversed, ascii: _bi_repr,
}
EFFECT_BUILTINS = {"open", "eval", "exec", "compile", "__import__", "input", "print", "breakpoint", "exit", "quit", "help"}
RE_FUNCS = {"match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"}
PURE_MODULES = {"itertools", "functools", "collections", "operator", "copy", "builtins", "_operator", "_collections",
                "types", "typing", "enum", "dataclasses", "contextlib", "abc", "_abc", "_functools", "collections.abc",
                "lark", "_collections_abc", "typing_extensions"}


class Effect:
    def __init__(self, what, loc):
        self.what, self.loc = what, loc

    def __repr__(self):
        return f"{self.what} at {self.loc}"


class Gen:
    """generator of the analysed program, running in its own thread with strict hand-over"""

    def __init__(self, start):
        self.start = start
        self.state = "new"
        self.to_gen = threading.Semaphore(0)
        self.to_main = threading.Semaphore(0)
        self.box = None
        self.sent = None

    def __iter__(self):
        return self

    def _resume(self, kind, val):
        if self.state == "done":
            if kind == "throw":
                raise val
            raise StopIteration
        self.sent = (kind, val)
        if self.state == "new":
            if kind == "throw":
                self.state = "done"
                raise val
            self.state = "run"
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
        else:
            self.to_gen.release()
        self.to_main.acquire()
        k, v = self.box
        if k == "yield":
            return v
        self.state = "done"
        if k == "return":
            raise StopIteration(v)
        raise v

    def __next__(self):
        return self._resume("send", None)

    def send(self, v):
        return self._resume("send", v)

    def throw(self, e, *a):
        return self._resume("throw", e() if isinstance(e, type) else e)

    def close(self):
        if self.state == "run":
            try:
                self._resume("throw", GeneratorExit())
            except (GeneratorExit, StopIteration):
                pass
        self.state = "done"

    def _main(self):
        sys.setrecursionlimit(20000)
        try:
            r = self.start()
            self.box = ("return", r)
        except BaseException as e:  # noqa: BLE001
            self.box = ("raise", e)
        self.to_main.release()

    def yield_(self, v):
        self.box = ("yield", v)
        self.to_main.release()
        self.to_gen.acquire()
        kind, val = self.sent
        if kind == "throw":
            native.throw(val)
        return val


CURRENT: "Interp" = None  # type: ignore[assignment]


class Interp:
    def __init__(self, world):
        global CURRENT
        CURRENT = self
        self.world = world
        self.fninfo: dict = {}
        self.depth = 0
        self.called: set = set()  # functions entered
        self.calls = 0
        self.preempt = None  # called where another thread may take over: when a function starts and when it has returned
        self.deco_depth = 0

    # ------------------------------------------------------------- functions
    runs = 0

    def call_ifunc(self, f: IFunc, args, kw):
        node = f.node
        env = Env({}, f.env, f.env.module, "func")
        env.cell = f.env.cell if f.env.kind != "class" else f.env.cell
        env.locals_ = f.locals_
        env.globals_ = f.globs
        env.nonlocals = f.nonls
        env.func = f
        self.bind(f, env, args, kw)
        if not f.isgen and any(isinstance(v, AStr) and len(v.segs) > 6 for v in env.vars.values()):
            return self.call_on_text(f, env)
        return self.call_bound(f, env)

    def call_on_text(self, f, env):
        """a yes/no question about a long text that splits ever more paths is answered for sample words from then on"""
        key = (str(f.env.module.path), f.node.lineno)
        if CTX.runs != self.runs:
            self.runs = CTX.runs
            HEAVY.update(k for k, n in FORKS.items() if n > 400)
        if key in HEAVY:
            keep = dict(env.vars)
            env.vars.update({k: v.rep() for k, v in keep.items() if isinstance(v, AStr)})
            r = self.call_bound(f, env)
            if isinstance(r, bool):
                CTX.path.sampled.append(f.__name__)
                return r
            env.vars.clear()
            env.vars.update(keep)
        n = len(CTX.path.trace)
        r = self.call_bound(f, env)
        if isinstance(r, bool):
            FORKS[key] = FORKS.get(key, 0) + len(CTX.path.trace) - n
        return r

    def call_bound(self, f, env):
        node = f.node
        self.called.add((f.env.module.path, node.lineno, f.__name__))
        self.calls += 1
        if f.isgen:
            g = Gen(lambda: self.run_body(node, env))
            env.gen = g
            return g
        if self.preempt is not None:
            self.preempt()
        if self.depth > 400:  # the inputs of an obligation are small: this recursion has no end
            native.recursion_error("maximum recursion depth exceeded")
        self.depth += 1
        loc = CTX.path.loc
        try:
            r = self.run_body(node, env)
            CTX.path.loc = loc
        finally:
            self.depth -= 1
        if self.preempt is not None:
            self.preempt()
        return r

    def run_body(self, node, env):
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        try:
            self.block(node.body, env)
        except _Return as r:
            return r.v
        return None

    def bind(self, f, env, args, kw):
        a = f.node.args
        v = env.vars
        pos = a.posonlyargs + a.args
        name = f.__name__
        if len(args) > len(pos) and a.vararg is None:
            native.type_error(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
        kw = dict(kw)
        for p, val in zip(pos, args):
            v[p.arg] = val
        if a.vararg is not None:
            v[a.vararg.arg] = tuple(args[len(pos):])
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    native.type_error(f"{name}() got multiple values for argument '{p.arg}'")
                continue
            if p.arg in kw and p not in a.posonlyargs:
                v[p.arg] = kw.pop(p.arg)
            else:
                di = i - (len(pos) - len(f.defaults))
                if di < 0:
                    native.type_error(f"{name}() missing required argument: '{p.arg}'")
                v[p.arg] = f.defaults[di]
        for p in a.kwonlyargs:
            if p.arg in kw:
                v[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                v[p.arg] = f.kwdefaults[p.arg]
            else:
                native.type_error(f"{name}() missing keyword-only argument: '{p.arg}'")
        if a.kwarg is not None:
            v[a.kwarg.arg] = kw
        elif kw:
            native.type_error(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'")
        if pos:
            env.args0 = v[pos[0].arg]
        elif a.vararg is not None and args:
            env.args0 = args[0]

    # ------------------------------------------------------------- names
    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__") and env.cname:
            return f"_{env.cname.lstrip('_')}{name}"
        return name

    def load(self, name, env):
        name = self.mangle(name, env)
        if name not in env.globals_:
            e = env
            first = True
            while e is not None:
                if e.kind != "class" or first:
                    if name in e.vars and e.kind != "module":
                        return e.vars[name]
                    if name in e.locals_ and name not in e.vars and e.kind == "func":
                        native.unbound_error(f"cannot access local variable '{name}'")
                if name == "__class__" and e.cell is not None and e.kind == "func":
                    return e.cell[0]
                first = False
                e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if name == "__builtins__":
            raise Unsupported("__builtins__")
        if name in EFFECT_BUILTINS:
            return self.world.effect_builtin(name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        native.name_error(f"name '{name}' is not defined")

    def store(self, name, v, env):
        name = self.mangle(name, env)
        if name in env.globals_:
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if e.kind == "func" and (name in e.vars or name in e.locals_):
                    e.vars[name] = v
                    return
                e = e.parent
        e = env
        while e.kind == "comp":
            e = e.parent
        e = env if env.kind == "comp" else e
        e.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(iterate(v)), env)
        else:
            raise Unsupported(ast.dump(t)[:40])

    def setattr(self, o, name, v):
        o = force(o)
        if isinstance(o, (AStr, AInt)):
            native.attr_error(f"object has no attribute {name!r}")
        if isinstance(o, AToken):
            raise Unsupported("assignment to a token attribute")
        native.setattr_(o, name, v)

    def unpack(self, elts, v, env):
        v = force(v)
        if isinstance(v, AInt) or v is None or isinstance(v, (int, float)):
            native.type_error("cannot unpack non-iterable object")
        items = list(iterate(v))
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                native.unpack_error(f"not enough values to unpack (expected at least {len(elts) - 1}, got {len(items)})")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, items[i: len(items) - after], env)
            for e, x in zip(elts[i + 1:], items[len(items) - after:] if after else []):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            native.unpack_error(f"wrong number of values to unpack (expected {len(elts)}, got {len(items)})")
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    # ------------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        p = CTX.path
        p.steps += 1
        if p.steps > STEP_LIMIT:
            raise Budget("step limit")
        p.loc = (env.module.path, s.lineno)
        getattr(self, "s_" + type(s).__name__, self.s_unsupported)(s, env)

    def s_unsupported(self, s, env):
        raise Unsupported(f"statement {type(s).__name__}")

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if env.kind == "class" and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annotations__", {})[s.target.id] = ast.unparse(s.annotation)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            self.store(t.id, binop(op, self.load(t.id, env), self.ev(s.value, env), True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            n = self.mangle(t.attr, env)
            self.setattr(o, n, binop(op, getattr_(o, n), self.ev(s.value, env), True))
        else:
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            setitem(o, k, binop(op, getitem(o, k), self.ev(s.value, env), True))

    def s_TypeAlias(self, s, env):
        self.store(s.name.id, object, env)

    def s_If(self, s, env):
        self.block(s.body if truth(self.ev(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while truth(self.ev(s.test, env)):
            n += 1
            if n > 5000:
                raise Budget("loop limit")
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_For(self, s, env):
        it = iterate(self.ev(s.iter, env))
        while True:
            try:
                v = native.next_(it)
            except StopIteration:
                break
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break

    def s_Continue(self, s, env):
        raise _Continue

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Global(self, s, env):
        pass

    def s_Nonlocal(self, s, env):
        pass

    def s_Assert(self, s, env):
        if not truth(self.ev(s.test, env)):
            native.assertion(repr(self.ev(s.msg, env)) if s.msg is not None else "")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                native.delattr_(self.ev(t.value, env), self.mangle(t.attr, env))
            elif isinstance(t, ast.Subscript):
                o = force(self.ev(t.value, env))
                k = self.ev(t.slice, env)
                if isinstance(o, dict):
                    k = dkey(o, k)
                native.delitem(o, k)
            elif isinstance(t, ast.Tuple):
                for e in t.elts:
                    self.s_Delete(ast.Delete(targets=[e]), env)

    def s_Raise(self, s, env):
        if s.exc is None:
            e = sys.exc_info()[1]
            cur = getattr(self, "handling", None)
            if cur:
                native.throw(cur[-1])
            if e is not None:
                native.throw(e)
            native.call(RuntimeError, ["No active exception to reraise"], {})
        e = self.ev(s.exc, env)
        if isinstance(e, type):
            e = self.call(e, [], {})
        if not isinstance(e, BaseException):
            native.type_error("exceptions must derive from BaseException")
        try:
            e._bsa_loc = (env.module.path, s.lineno)
        except AttributeError:
            pass
        if s.cause is not None:
            c = self.ev(s.cause, env)
            native.throw_from(e, c)
        native.throw(e)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except (_Return, _Break, _Continue):
                raise
            except Exception as e:  # noqa: BLE001
                if is_engine_error(e):
                    raise
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ok = native.call(isinstance, [e, t], {})
                    if ok:
                        if h.name:
                            self.store(h.name, e, env)
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(e)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        return
                raise
            else:
                self.block(s.orelse, env)
        finally:
            et = sys.exc_info()[0]
            if et is None or not issubclass(et, Engine):
                self.block(s.finalbody, env)

    s_TryStar = s_unsupported

    def s_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = force(self.ev(it.context_expr, env))
        v = native.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except (_Return, _Break, _Continue):
            native.leave(cm, None, None, None)
            raise
        except Exception as e:  # noqa: BLE001
            if not truth(native.leave(cm, type(e), e, e.__traceback__)):
                raise
        else:
            native.leave(cm, None, None, None)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.world.import_(a.name, env.module)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr_(m, part)
                self.store(a.asname, m, env)
            else:
                self.store(a.name.split(".")[0], m, env)

    def s_ImportFrom(self, s, env):
        if s.module == "__future__":
            return
        m = self.world.import_from(s.module, s.level, env.module)
        for a in s.names:
            if a.name == "*":
                names = getattr(m, "__all__", None) or [n for n in vars(m) if not n.startswith("_")]
                for n in names:
                    self.store(n, getattr_(m, n), env)
                continue
            self.store(a.asname or a.name, self.world.from_attr(m, a.name, s, env.module), env)

    def decorate(self, f, decos, env):
        for d in reversed([self.ev(d, env) for d in decos]):
            f = self.call(d, [f], {})
        return f

    def make_func(self, node, env, name):
        a = node.args
        return IFunc(node, env, self, name, [self.ev(d, env) for d in a.defaults],
                     {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def s_FunctionDef(self, s, env):
        decos = [self.ev(d, env) for d in s.decorator_list]
        f = self.make_func(s, env, s.name)
        if env.kind == "class":
            f.__qualname__ = f"{env.vars.get('__qualname__', '')}.{s.name}"
        if decos and not all(d in (staticmethod, classmethod, property) for d in decos):
            f = function_type(f)
        for d in reversed(decos):
            f = self.call(d, [f], {})
        self.store(s.name, f, env)

    def s_ClassDef(self, s, env):
        decos = [self.ev(d, env) for d in s.decorator_list]
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases += list(iterate(self.ev(b.value, env)))
            else:
                bases.append(self.ev(b, env))
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        rb = native.call(types.resolve_bases, [tuple(bases)], {})
        meta, ns, kw = native.call(types.prepare_class, [s.name, rb, kw], {})
        if rb != tuple(bases):
            ns["__orig_bases__"] = tuple(bases)
        ns["__module__"] = env.module.name
        ns["__qualname__"] = s.name
        doc = ast.get_docstring(s)
        if doc is not None:
            ns["__doc__"] = doc
        cenv = Env(ns, env, env.module, "class", s.name)
        cenv.cell = [None]
        cenv.globals_ = {n for st in s.body if isinstance(st, ast.Global) for n in st.names}
        self.block(s.body, cenv)
        with registered(env.module):
            cls = native.call(meta, [s.name, rb, ns], kw)
            cenv.cell[0] = cls
            for d in reversed(decos):
                cls = self.call(d, [cls], {})
        self.store(s.name, cls, env)

    # ------------------------------------------------------------- match
    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            binds: dict = {}
            if self.match(c.pattern, v, env, binds):
                for k, x in binds.items():
                    self.store(k, x, env)
                if c.guard is None or truth(self.ev(c.guard, env)):
                    self.block(c.body, env)
                    return

    def static_match(self, p, v, env):
        if isinstance(v, Sym):
            return UNKNOWN if not (isinstance(p, ast.MatchAs) and p.pattern is None) else True
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return True
            r = self.static_match(p.pattern, v, env)
            return r if r is False else UNKNOWN
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchValue):
            r = static_eq(v, self.ev(p.value, env))
            return r
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, collections.abc.Mapping):
                return False
            for k, sub in zip(p.keys, p.patterns):
                kk = self.ev(k, env)
                if any(_abs_key(x) for x in v):
                    continue
                if kk not in v:
                    return False
                if self.static_match(sub, v[kk], env) is False:
                    return False
            return UNKNOWN
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = any(isinstance(x, ast.MatchStar) for x in p.patterns)
            if not star and len(v) != len(p.patterns):
                return False
            if star and len(v) < len(p.patterns) - 1:
                return False
            return UNKNOWN
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, env)
            if not is_instance(v, cls):
                return False
            return UNKNOWN
        if isinstance(p, ast.MatchOr):
            rs = [self.static_match(q, v, env) for q in p.patterns]
            return False if all(r is False for r in rs) else UNKNOWN
        return UNKNOWN

    def match(self, p, v, env, b):
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                b[p.name] = v
            return True
        if isinstance(v, Sym):
            r = observe(v, lambda a: self.static_match(p, a, env), "match")
            if r is False:
                return False
            v0, v = v, force(v)
        else:
            v0 = v
        if isinstance(p, ast.MatchAs):
            if not self.match(p.pattern, v, env, b):
                return False
            if p.name:
                b[p.name] = v0
            return True
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchValue):
            return truth(compare("Eq", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                bb: dict = {}
                if self.match(q, v, env, bb):
                    b.update(bb)
                    return True
            return False
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, collections.abc.Mapping):
                return False
            used = []
            for k, sub in zip(p.keys, p.patterns):
                kk = dkey(v, self.ev(k, env))
                if kk not in v:
                    return False
                used.append(kk)
                if not self.match(sub, v[kk], env, b):
                    return False
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if not any(k is u or (type(u) is str and type(k) is str and u == k) for u in used)}
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, env, b) for q, x in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            if not all(self.match(q, x, env, b) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i: len(v) - after])
            return all(self.match(q, x, env, b) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:] if after else []))
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, env)
            if not is_instance(v, cls):
                return False
            if p.patterns:
                if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple) or issubclass(cls, str):
                    if len(p.patterns) != 1 or not self.match(p.patterns[0], v0 if class_of(v) is class_of(v0) else v, env, b):
                        return False
                else:
                    names = getattr(cls, "__match_args__", ())
                    for n, q in zip(names, p.patterns):
                        if not self.match(q, getattr_(v, n), env, b):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = getattr_(v, n)
                except AttributeError:
                    return False
                if not self.match(q, x, env, b):
                    return False
            return True
        raise Unsupported("pattern")

    # ------------------------------------------------------------- expressions
    def ev(self, e, env):
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(e, env)

    def e_unsupported(self, e, env):
        raise Unsupported(f"expression {type(e).__name__}")

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        t = env
        while t.kind == "comp":
            t = t.parent
        self.store(e.target.id, v, t)
        return v

    def e_Attribute(self, e, env):
        return self.world.attr(self.ev(e.value, env), self.mangle(e.attr, env))

    def e_Subscript(self, e, env):
        return getitem(self.ev(e.value, env), self.ev(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*(self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return _mkset(set, [self.elts(e.elts, env)])

    def e_Dict(self, e, env):
        d: dict = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = force(self.ev(v, env))
                if not hasattr(src, "keys"):
                    native.type_error("argument after ** must be a mapping")
                dict_method(d, "update", [src], {})
            else:
                kk = self.ev(k, env)
                vv = self.ev(v, env)
                dict_set(d, kk, vv)
        CTX.path.sites[id(d)] = (d, env.module.path, e.lineno)
        return d

    def comp(self, gens, env, emit):
        def rec(i, env):
            if i == len(gens):
                emit(env)
                return
            g = gens[i]
            it = iterate(self.ev(g.iter, env if i else outer))
            while True:
                try:
                    v = native.next_(it)
                except StopIteration:
                    return
                self.assign(g.target, v, env)
                if all(truth(self.ev(c, env)) for c in g.ifs):
                    rec(i + 1, env)

        outer = env
        cenv = Env({}, env, env.module, "comp")
        cenv.globals_ = ()
        cenv.cell = env.cell
        rec(0, cenv)

    def e_ListComp(self, e, env):
        out: list = []
        self.comp(e.generators, env, lambda en: out.append(self.ev(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return iter(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        return _mkset(set, [self.e_ListComp(e, env)])

    def e_DictComp(self, e, env):
        d: dict = {}

        def emit(en):
            k = self.ev(e.key, en)
            dict_set(d, k, self.ev(e.value, en))

        self.comp(e.generators, env, emit)
        return d

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if truth(v) != isand:
                return v
        return self.ev(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        return unop(type(e.op).__name__, self.ev(e.operand, env))

    def e_BinOp(self, e, env):
        return binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            r = compare(type(op).__name__, a, b)
            if len(e.ops) > 1 and not truth(r):
                return r
            a = b
        return r

    def e_IfExp(self, e, env):
        return self.ev(e.body if truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                out += segs_of(format_value(self.ev(v.value, env), {-1: None}.get(v.conversion, v.conversion), spec))
        return mk(out)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        t = env
        while t.gen is None:
            t = t.parent
        return t.gen.yield_(v)

    def e_YieldFrom(self, e, env):
        t = env
        while t.gen is None:
            t = t.parent
        for v in iterate(self.ev(e.value, env)):
            t.gen.yield_(v)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                src = force(self.ev(k.value, env))
                for kk in list(src.keys()):
                    kw[conc(kk)] = native.getitem(src, kk)
            else:
                kw[k.arg] = self.ev(k.value, env)
        CTX.path.loc = (env.module.path, e.lineno)
        if f is super and not args:
            t = env
            while t.kind != "func" or t.cell is None:
                t = t.parent
                if t is None:
                    native.call(super, [], {})
            return native.call(super, [t.cell[0], t.args0], {})
        if f is locals or f is vars and not args or f is dir and not args:
            raise Unsupported("locals()")
        if f is globals:
            return env.module.ns
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, (IFunc,)):
            return self.call_ifunc(f, args, kw)
        if isinstance(f, types.MethodType):
            g = f.__func__
            if isinstance(g, IFunc):
                return self.call_ifunc(g, [f.__self__, *args], kw)
        if isinstance(f, Sym):
            f = force(f)
        if isinstance(f, (AStr, AInt, AToken)):
            native.type_error("object is not callable")
        try:
            m = BUILTIN_MODEL.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw) if _arity_ok(m, args, kw) else native.call(f, args, kw)
        r = self.world.call_model(f, args, kw)
        if r is not NotImplemented:
            return r
        self_ = getattr(f, "__self__", None)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)):
            name = f.__name__
            if isinstance(self_, str) and not isinstance(self_, AToken):
                if deep_abstract(list(args)) or deep_abstract(kw) or name == "join":
                    return smeth(name, self_, args, kw)
                return native.call(f, args, kw)
            if isinstance(self_, dict) and name in DICT_METHODS:
                return dict_method(self_, name, args, kw)
            if isinstance(self_, re.Pattern):
                return self.pattern_call(self_, name, args, kw)
            if isinstance(self_, list):
                if name == "extend":
                    return native.call(f, [list(iterate(args[0]))], kw)
                if name == "sort":
                    self_[:] = _bi_sorted(self_, **kw)
                    return None
                if name in ("index", "remove", "count"):
                    hits = [i for i, y in enumerate(self_) if y is args[0] or values_equal(args[0], y)]
                    if name == "count":
                        return len(hits)
                    if not hits:
                        native.value_error("not in list")
                    if name == "index":
                        return hits[0]
                    del self_[hits[0]]
                    return None
                args = [conc_int(a) if isinstance(a, AInt) and name in ("pop", "insert") and i == 0 else a
                        for i, a in enumerate(args)]
                return native.call(f, args, kw)
            if isinstance(self_, set) and name in ("add", "discard", "remove", "update"):
                if name == "update":
                    for a in args:
                        for v in iterate(a):
                            self_.add(dkey(self_, v))
                    return None
                k = dkey(self_, force(args[0]))
                return native.call(f, [k], {})
            if isinstance(self_, type) and name == "__new__" and args:
                cls = args[0]
                if isinstance(cls, type) and issubclass(cls, str) and len(args) > 1 and deep_abstract(list(args[1:])):
                    x = to_str(args[1])
                    return AStr(segs_of(x), cls)
        if isinstance(f, type):
            if issubclass(f, str) and f is not str and (deep_abstract(list(args)) or deep_abstract(kw)):
                return self.new_str(f, args, kw)
            if issubclass(f, BaseException):
                return native.call(f, args, kw)
            if f is dict or issubclass(f, dict) and f.__init__ is dict.__init__:
                d = native.call(f, [], {})
                dict_method(d, "update", args, kw) if args or kw else None
                return d
        if isinstance(f, types.MethodDescriptorType) and args:
            oc = f.__objclass__
            if oc is str:
                a0 = force(args[0])
                if isinstance(a0, (AStr, AToken)) or deep_abstract(list(args[1:])):
                    return smeth(f.__name__, a0, args[1:], kw)
            if oc is dict and f.__name__ in DICT_METHODS:
                return dict_method(force(args[0]), f.__name__, args[1:], kw)
            if oc is re.Pattern:
                return self.pattern_call(args[0], f.__name__, args[1:], kw)
        if isinstance(f, functools.partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kw})
        if isinstance(f, (BoundStr,)):
            return f(*args, **kw)
        mod = (getattr(f, "__module__", None) or "").split(".")[0]
        if isinstance(f, type) and mod not in ("lark",) or mod in PURE_MODULES or isinstance(
                self_, (dict, list, tuple, set, frozenset)):
            return native.call(f, args, kw)
        owner = getattr(type(f), "__module__", "")
        if owner.startswith("bsa") or self.world.is_program(f):
            return native.call(f, args, kw)
        if isinstance(self_, (Gen, AMatch)) or isinstance(f, types.MethodType) and self.world.is_program_obj(f.__self__):
            return native.call(f, args, kw)
        if deep_abstract(list(args)) or deep_abstract(kw):
            args = [deep_conc(a) for a in args]
            kw = {k: deep_conc(v) for k, v in kw.items()}
        return native.call(f, args, kw)

    def new_str(self, cls, args, kw):
        n = _override(cls, "__new__")
        if n is not None:
            n = n.__func__ if isinstance(n, staticmethod) else n
            r = self.call(n, [cls, *args], kw)
        else:
            r = AStr(segs_of(to_str(args[0])), cls) if args else native.call(cls, args, kw)
        i = _override(cls, "__init__")
        if i is not None:
            raise Unsupported("str subclass with __init__")
        return r

    def pattern_call(self, p, name, args, kw):
        if name in ("sub", "subn"):
            a = list(args)
            repl = a.pop(0) if a else kw.pop("repl")
            x = force(a.pop(0) if a else kw.pop("string"))
            return re_sub(p, repl, x, name, a, kw)
        if name in RE_FUNCS:
            a = list(args)
            x = force(a.pop(0) if a else kw.pop("string"))
            if as_astr(x) is None:
                native.type_error("expected string or bytes-like object")
            return re_call(name, p, x, a, kw)
        return native.call(native.attr(p, name), args, kw)

    # ------------------------------------------------------------- modules
    def run_module(self, mod: Module):
        env = Env(mod.ns, None, mod, "module")
        self.block(mod.tree.body, env)


def _arity_ok(m, args, kw):
    c = m.__code__
    lo = c.co_argcount - len(m.__defaults__ or ())
    if c.co_flags & 4:
        return True
    return lo <= len(args) <= c.co_argcount and (not kw or c.co_kwonlyargcount or c.co_flags & 8 or all(k in c.co_varnames for k in kw))


def function_type(f):
    return f


def is_engine_error(e) -> bool:
    """did the exception come from the analysis rather than from the analysed program?"""
    if isinstance(e, Engine):
        return True
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        last = None
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if "/bsa/" in fn:
                last = (fn, tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        if last is not None and not last[0].endswith("/native.py") and last[1] not in OK_RAISERS:
            return True
        e = getattr(e, "orig_exc", None)
    return False


OK_RAISERS = {"_resume", "parse_model"}


def engine_trace(e) -> str:
    import traceback
    o = getattr(e, "orig_exc", None) or e
    return "".join(traceback.format_exception(o))[-1500:]


for _c in (AStr, AInt, Sym, AToken):
    if _c is not AToken:
        _c.__copy__ = lambda self: self
        _c.__deepcopy__ = lambda self, memo: self
