"""What the properties demand: source templates with holes and the results they must give.

Nothing here is derived from the analysed code: templates are Bicep source text, expected values follow Bicep's documented
syntax and the published result types.
"""
from __future__ import annotations

import ast

from lark import Token

from . import dom
from . import relang as R
from .dom import CTX, AInt, AStr, AToken, Engine, Hole, Sym, as_astr, explore, mk, snorm, to_int
from .interp import engine_trace, is_engine_error
from .world import EHole, World


class Elem(str):
    """marks an expected string as a bare identifier"""


W: World = None  # type: ignore[assignment]


def use(world):
    global W
    W = world


# --------------------------------------------------------------------------- holes
_langs: dict = {}


def L(pattern):
    d = _langs.get(pattern)
    if d is None:
        d = _langs[pattern] = R.lang(pattern).minimize()
    return d


IDENT = r"[A-Za-z_][A-Za-z0-9_]*"
LITERAL_WORDS = ("null", "true", "false")
_ident = None


def ident_lang():
    global _ident
    if _ident is None:
        _ident = (L(IDENT) - R.words(*LITERAL_WORDS)).minimize()
    return _ident


PLAIN = r"(?:[^'\\$\n\r]|\\[^\n\r]|\$(?!\{))*"
# the text of a quoted literal with interpolations, nested literals one level deep
INTERP = (r"(?:[^'\\$\n\r]|\\[^\n\r]|\$(?!\{)|\$\{(?:[^{}'\n\r]|'(?:[^'\\$\n\r]|\\[^\n\r]|\$(?!\{))*')+\})*")
_holes: dict = {}


def hole(name, kind, lang, rep=None, distinct=None, cls=Hole):
    h = _holes.get((kind, name))
    if h is None:
        h = _holes[kind, name] = cls(f"{kind}_{name}" if kind != "I" else name, kind, lang, rep, distinct)
    return h


def I(name):  # noqa: E743
    """an identifier; identifiers of one template are different words"""
    return hole(name, "I", ident_lang(), f"zq{name}", "id")


def S(name):
    """content of a single-quoted literal without interpolation"""
    return hole(name, "S", L(PLAIN), f"s {name}")


def SI(name):
    """content of a single-quoted literal with interpolation"""
    return hole(name, "SI", interp_lang(), "a${zqi('x')}b${zqj}" + name)


def interp_lang():
    if "si" not in _langs:
        qqq = R.concat(R.SIGMA_STAR, R.word("'''"), R.SIGMA_STAR)
        _langs["si"] = (L(INTERP) - qqq).minimize()
    return _langs["si"]


def _ml_lang():
    if "ml" not in _langs:
        qqq = R.concat(R.SIGMA_STAR, R.word("'''"), R.SIGMA_STAR)
        endq = R.concat(R.SIGMA_STAR, R.word("'"))
        _langs["ml"] = (R.SIGMA_STAR - qqq - endq).minimize()
    return _langs["ml"]


def M(name):
    """content of a multi-line literal"""
    return hole(name, "M", _ml_lang(), f"m {name}")


def M1(name):
    """content of a multi-line literal that does not start with a line break"""
    if "ml1" not in _langs:
        _langs["ml1"] = (_ml_lang() - R.concat(R.words("\n", "\r\n"), R.SIGMA_STAR)).minimize()
    return hole(name, "M1", _langs["ml1"], f"m {name}")


def N(name):
    return hole(name, "N", L(r"[0-9]+"), "7")


def F(name):
    """a function name that is neither built-in nor a keyword"""
    return hole(name, "F", unknown_functions(), f"zf{name}")


_unknown = None


def unknown_functions():
    global _unknown
    if _unknown is None:
        from .tables import FUNCTIONS
        _unknown = (ident_lang() - R.words(*FUNCTIONS, "if", "for", "items", "resource", "existing")
                    - L(r"([Ll]ist[A-Za-z]*|getSecret)")).minimize()
    return _unknown


class E:
    """a place for an arbitrary expression"""

    def __init__(self, name, archs=None):
        self.hole = _holes.get(("E", name))
        if self.hole is None:
            self.hole = _holes["E", name] = EHole(f"E_{name}", "E", ident_lang(), f"zqe{name}")
            self.hole.sym = Sym(name, archs or ARCHS)
        elif archs and archs != self.hole.sym.archs:
            raise ValueError(f"expression hole {name} used with two shapes")
        self.segs = (self.hole,)

    def val(self):
        return self.hole.sym


# --------------------------------------------------------------------------- fragments
class Frag:
    """source text and the value it must be recorded as"""

    def __init__(self, segs, val, name="", bare=False, tags=()):
        self.segs = flat(segs)
        self._val = val
        self.name = name
        self.bare = bare
        self.tags = frozenset(tags)

    def val(self):
        return self._val() if callable(self._val) else self._val


def flat(segs):
    out = []
    for s in segs if isinstance(segs, (list, tuple)) else [segs]:
        if isinstance(s, (list, tuple)):
            out += flat(s)
        elif isinstance(s, (str, Hole)):
            out.append(s)
        else:
            out += s.segs
    return tuple(out)


def el(*segs):
    """expected: a bare identifier"""
    return AStr(flat(segs), cls=Elem).norm()


def st(*segs):
    """expected: a plain string"""
    return AStr(flat(segs)).norm()


def num(h):
    return to_int(AStr([h]))


# --------------------------------------------------------------------------- shapes of opaque expressions
def _m_elem(n):
    return AStr([hole(n, "X", ident_lang(), f"zx{n}")], cls=W.BicepElement)


def _m_str(n):
    return AStr([hole(n, "XS", string_lang(), f"s{n}")])


def string_lang():
    if "any" not in _langs:
        _langs["any"] = (interp_lang() | _ml_lang()).minimize()
    return _langs["any"]


def sub(n, k):
    return Sym(f"{n}.{k}", ARCHS)


def _m_op(kind, *names):
    def f(n):
        return {"operator": {"type": kind, "operands": {k: sub(n, k) for k in names}}}
    return f


def _m_minus_int(n):
    return {"operator": {"type": "minus", "operands": {"integer_value": to_int(AStr([N(n)]))}}}


dom.MAKERS.update({
    "null": lambda n: None,
    "true": lambda n: True,
    "false": lambda n: False,
    "int": lambda n: to_int(AStr([N(n)])),
    "elem": _m_elem,
    "str": _m_str,
    "array0": lambda n: [],
    "array": lambda n: [sub(n, "0"), sub(n, "1")],
    "object0": lambda n: {},
    "object": lambda n: {mk([hole(n, "XK", L(IDENT), f"k{n}")]): sub(n, "v")},
    "call": lambda n: {"function": {"type": mk([hole(n, "XF", unknown_functions(), f"f{n}")]),
                                    "parameters": {"arg_1": sub(n, "a")}}},
    "call0": lambda n: {"function": {"type": mk([hole(n, "XF", unknown_functions(), f"f{n}")]), "parameters": {}}},
    "binary": _m_op("add", "operand_1", "operand_2"),
    "minus": _m_op("minus", "integer_value"),
    "minus_int": _m_minus_int,
    "not": _m_op("not", "bool_value"),
    "access": _m_op("property_accessor", "operand_1", "operand_2"),
    "lambda": lambda n: {"type": "lambda_expression",
                         "detail": {"var_1": mk([hole(n, "XL", L(IDENT), f"v{n}")]), "expression": sub(n, "x")}},
})
ARCHS = ("null", "true", "false", "int", "elem", "str", "array0", "array", "object0", "object", "call", "call0", "binary",
         "minus", "minus_int", "not", "access", "lambda")


# --------------------------------------------------------------------------- comparison
class Diff:
    def __init__(self, where, got, want, kind="value"):
        self.where, self.got, self.want, self.kind = where, got, want, kind
        self.loc = None
        self.gotv = self.wantv = None

    def __repr__(self):
        return f"{self.where or 'result'}: {self.kind}: recorded {self.got}, should be {self.want}"


def show(v, depth=0):
    if depth > 5:
        return "..."
    if isinstance(v, Sym):
        c = dom.resolved(v)
        return f"«{v.name}»" if c is None else show(c[0], depth + 1)
    if isinstance(v, AToken):
        return f"Token({show(v.astr)})"
    if isinstance(v, Token):
        return f"Token({v.type}, {str.__repr__(v)})"
    a = as_astr(v)
    if a is not None:
        n = snorm(a)
        cls = getattr(v, "cls", None) or (type(v) if type(v) is not str else None)
        t = repr(n) if isinstance(n, AStr) else str.__repr__(n)
        if isinstance(n, AStr):
            t = "'" + "".join(f"<{s.name}>" if isinstance(s, Hole) else s for s in n.segs) + "'"
        return t + (f":{cls.__name__}" if cls not in (None, str) else "")
    if isinstance(v, dict):
        return "{" + ", ".join(f"{show(k)}: {show(x, depth + 1)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        b = "[]" if isinstance(v, list) else "()"
        return b[0] + ", ".join(show(x, depth + 1) for x in v) + b[1]
    return repr(v)


def keyname(k):
    a = as_astr(k)
    if a is None:
        return repr(k)
    return "".join(f"<{s.name}>" if isinstance(s, Hole) else s for s in dom.segs_of(a))


def keyid(k):
    a = as_astr(k)
    return ("?", repr(k)) if a is None else dom.segs_of(a)


def cls_of(v):
    """the string class a value has"""
    if isinstance(v, AToken):
        return Token
    if isinstance(v, AStr):
        return v.cls
    return type(v)


def is_elem(v):
    c = cls_of(v)
    return isinstance(c, type) and (issubclass(c, Elem) or issubclass(c, W.BicepElement))


def compare(got, want, where="", classes=False, ignore=()):
    """differences between an abstract result and the demanded one, under the current path"""
    out: list[Diff] = []
    _cmp(got, want, where, classes, ignore, out, None)
    return out


def _site(v, site):
    s = CTX.path.sites.get(id(v))
    return (s[1], s[2]) if s is not None and s[0] is v else site


def as_pinned(s, v):
    """``v`` is what the text an analysed path has fixed for the expression place of ``s`` (an identifier) is recorded as"""
    if not isinstance(s, Sym) or not CTX.path or not CTX.path.word:
        return False
    a = as_astr(v)
    if a is None or not is_elem(v):
        return False
    t = snorm(a)
    return any(isinstance(h, EHole) and h.sym is s and w == t for h, w in CTX.path.word.items())


def _cmp(g, w, where, classes, ignore, out, site):
    if len(out) > 5:
        return

    def bad(kind="value"):
        d = Diff(where, show(g), show(w), kind)
        d.loc = site
        d.gotv, d.wantv = g, w
        out.append(d)

    if isinstance(w, Any):
        return
    if isinstance(g, Sym) and isinstance(w, Sym) and g.name == w.name:
        return
    if as_pinned(g, w) or as_pinned(w, g):
        return
    if isinstance(g, Sym):
        c = dom.resolved(g)
        if c is None:
            return bad()
        return _cmp(c[0], w, where, classes, ignore, out, site)
    if isinstance(w, Sym):
        for a in dom.candidates(w):
            sub_out: list = []
            _cmp(g, dom.arch_value(w, a), where, classes, ignore, sub_out, site)
            if sub_out:
                return bad()
        return
    ga, wa = as_astr(g), as_astr(w)
    if ga is not None or wa is not None:
        if ga is None or wa is None:
            return bad()
        if dom.segs_of(ga) != dom.segs_of(wa):
            return bad()
        if classes and is_elem(g) != is_elem(w):
            return bad("identifier marker")
        return
    site = _site(g, site)
    if isinstance(w, dict):
        if not isinstance(g, dict):
            return bad()
        gk = {keyid(k): (k, v) for k, v in g.items()}
        wk = {keyid(k): (k, v) for k, v in w.items()}
        for i, (k, v) in wk.items():
            if k in ignore:
                continue
            if i not in gk:
                d = Diff(f"{where}.{keyname(k)}", "nothing", show(v), "missing")
                d.wantv = v
                d.loc = site
                out.append(d)
            else:
                _cmp(gk[i][1], v, f"{where}.{keyname(k)}", classes, ignore, out, site)
        for i, (k, v) in gk.items():
            if i not in wk and k not in ignore:
                d = Diff(f"{where}.{keyname(k)}", show(v), "nothing", "extra")
                d.gotv = v
                d.loc = site
                out.append(d)
        return
    if isinstance(w, (list, tuple)):
        if type(g) is not type(w):
            return bad()
        if len(g) != len(w):
            return bad("number of entries")
        for i, (x, y) in enumerate(zip(g, w)):
            _cmp(x, y, f"{where}[{i}]", classes, ignore, out, site)
        return
    if isinstance(w, AInt) or isinstance(g, AInt):
        if isinstance(g, bool) or isinstance(w, bool):
            return bad()
        if dom.static_eq(g, w) is not True:
            return bad()
        return
    if type(g) is not type(w) or g != w:
        return bad()


class Any:
    """expected: anything"""


ANY = Any()


# --------------------------------------------------------------------------- running templates
class Reject:
    """the text must be rejected"""

    def __init__(self, *types):
        self.types = types

    def __repr__(self):
        return "an error"


class Case:
    def __init__(self, name, segs, want, lines=False, limit=400, judge=None, run=None, ignore=(), classes=False):
        self.name = name
        self.segs = flat(segs)
        self.want = want
        self.lines = lines
        self.limit = limit
        self.judge = judge
        self.run = run
        self.ignore = ignore
        self.classes = classes
        self.bind: dict = {}

    def bound(self, words):
        """the same case with some holes standing for given words"""
        c = Case(self.name, self.segs, self.want, self.lines, self.limit, self.judge, self.run, self.ignore, self.classes)
        c.bind = {**self.bind, **words}
        return c

    def text(self):
        return AStr(self.segs).norm()

    def source(self):
        return "".join(f"<{s.name}>" if isinstance(s, Hole) else s for s in self.segs)

    def expected(self):
        return self.want() if callable(self.want) else self.want


class Finding:
    def __init__(self, case, key, message, loc=None, path=None, detail=None):
        self.case, self.key, self.message, self.loc = case, key, message, loc
        self.detail = detail or {}
        if path is not None and "assumptions" not in self.detail:
            self.detail["path"] = describe(path)


def describe(p):
    return {"decisions": [lab for lab in p.labels][:40],
            "words": {h.name: w for h, w in list(p.word.items())[:20]},
            "representatives": {h.name: dom.rep_word(h) for h in list(p.lang)[:20]}}


_fnmap: dict = {}


def funcname(path, line):
    k = str(path)
    if k not in _fnmap:
        spans = []
        try:
            for n in ast.walk(W.tree_of(path)):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    spans.append((n.lineno, n.end_lineno, n.name))
        except Exception:
            pass
        _fnmap[k] = spans
    best = None
    for a, b, n in _fnmap[k]:
        if a <= line <= b and (best is None or a >= best[0]):
            best = (a, n)
    return best[1] if best else "<module>"


def where(loc):
    if not loc:
        return None
    path, line = loc[0], loc[1]
    try:
        rel = str(path).replace(str(W.repo) + "/", "")
    except Exception:
        rel = str(path)
    return f"{rel}:{line} ({funcname(path, line)})"


class Outcome:
    """what happened on one path"""

    def __init__(self, status, value=None, loc=None, exc=None):
        self.status, self.value, self.loc, self.exc = status, value, loc, exc


def program_exc(e):
    """unwraps the exception the tree walker puts around exceptions of handlers"""
    o = getattr(e, "orig_exc", None)
    return o if o is not None else e


def attempt(f):
    try:
        return Outcome("ok", f())
    except Engine as e:
        return Outcome("engine", exc=f"{type(e).__name__}: {e}", loc=CTX.path.loc)
    except RecursionError as e:
        if getattr(e, "of_program", False):
            return Outcome("raised", exc=e, loc=CTX.path.loc)
        return Outcome("engine", exc=f"recursion: {e}")
    except Exception as e:
        if is_engine_error(e):
            return Outcome("engine", exc=f"{type(e).__name__}: {e}\n{engine_trace(e)}")
        o = program_exc(e)
        return Outcome("raised", exc=o, loc=getattr(o, "_bsa_loc", None) or CTX.path.loc)


class Stats:
    def __init__(self):
        self.cases = 0
        self.paths = 0
        self.sampled: dict = {}
        self.undecided: list = []
        self.samples: list = []
        self.functions: set = set()
        self.comparisons = 0
        self.extra: dict = {}

    def merge(self, o):
        self.cases += o.cases
        self.paths += o.paths
        for k, v in o.sampled.items():
            self.sampled[k] = self.sampled.get(k, 0) + v
        self.undecided += o.undecided
        self.samples += o.samples[: max(0, 6 - len(self.samples))]
        self.functions |= o.functions
        self.comparisons += o.comparisons
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v if isinstance(v, (int, float)) else v


def outcomes(case, stats):
    """(path, Outcome) for every path of the program over the template"""
    def run():
        W.reset()
        W.interp.depth = 0
        CTX.path.word.update(case.bind)
        text = case.text()
        if case.run is not None:
            return attempt(lambda: case.run(case))
        return attempt(lambda: W.parse(text, case.lines))

    stats.cases += 1
    for p, o in explore(run, case.limit):
        stats.paths += 1
        for s in p.sampled:
            s = s.split(" ")[0] + " " + " ".join(s.split(" ")[1:])
            stats.sampled[s] = stats.sampled.get(s, 0) + 1
        yield p, o


def explain(e):
    return f"{type(e).__name__}: {e}".split("\n")[0][:200]


def check(case, stats, judge=None):
    """findings of one case"""
    res: dict = {}
    got_ok = 0
    for p, o in outcomes(case, stats):
        if o.status == "engine":
            stats.undecided.append((case.name, str(o.exc)[:600]))
            continue
        stats.comparisons += 1
        want = case.expected()
        for key, msg, loc in (judge or case.judge or default_judge)(case, p, o, want):
            if key not in res:
                res[key] = Finding(case, f"{case.name}|{key}", msg, loc, p)
        got_ok += 1
        if len(res) >= 4:
            break
    if len(stats.samples) < 3:
        stats.samples.append(case.source()[:300])
    return list(res.values())


def default_judge(case, p, o, want):
    if isinstance(want, Reject):
        if o.status == "ok":
            yield "accepted", f"text must be rejected, but is recorded as {show(o.value)[:300]}", _site(o.value, None)
        return
    if o.status == "raised":
        yield f"raises {type(o.exc).__name__}", f"conversion fails with {explain(o.exc)}", o.loc
        return
    for d in compare(o.value, want, "", case.classes, case.ignore):
        yield f"{d.where}|{d.got[:160]}", repr(d), d.loc




def GN(name):
    """a layout token: optional line comment, one or more line breaks"""
    if "gn" not in _langs:
        qqq = R.concat(R.SIGMA_STAR, R.word("'''"), R.SIGMA_STAR)
        _langs["gn"] = (L(r"(//[^\n]*)?(\r?\n)+") - qqq).minimize()
    return hole(name, "G", _langs["gn"], "\n")
