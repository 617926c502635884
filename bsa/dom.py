"""Abstract values and the exploration of undetermined branches.

* ``AStr``  - a string made of literal pieces and named holes; a hole stands for every word of a regular language
* ``AInt``  - a linear form over integer unknowns
* ``Sym``   - an opaque expression result; it is only split into its possible shapes when the program looks at it
* ``Path``  - one trace partition: the decisions taken and the refinements of holes and symbols they imply
"""
from __future__ import annotations

import itertools
import re

from lark import Token

from . import native
from . import relang as R


class Engine(BaseException):
    """the analysis cannot follow the program here (never a finding)"""


class Unsupported(Engine):
    pass


class Budget(Engine):
    pass


class Hole:
    __slots__ = ("name", "kind", "lang", "rep", "distinct")
    _n = itertools.count()

    def __init__(self, name, kind, lang, rep=None, distinct=None):
        self.name, self.kind, self.lang = name, kind, lang
        self.rep = rep if rep is not None else lang.shortest()
        self.distinct = distinct

    def __repr__(self):
        return f"<{self.name}>"


class Var:
    __slots__ = ("name", "lo", "hi")

    def __init__(self, name, lo=0, hi=None):
        self.name, self.lo, self.hi = name, lo, hi

    def __repr__(self):
        return self.name


class Path:
    """state of one abstract execution"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace: list[tuple[int, int]] = []
        self.labels: list[str] = []
        self.word: dict = {}
        self.parts: dict = {}  # hole -> the two pieces it was cut into
        self.lang: dict = {}
        self.cands: dict = {}
        self.val: dict = {}
        self.intval: dict = {}
        self.intlo: dict = {}
        self.inthi: dict = {}
        self.sampled: list[str] = []
        self.effects: list = []
        self.loc = None
        self.steps = 0
        self.lenvars: dict = {}
        self.cntvars: dict = {}  # number of occurrences of a character in a hole
        self.arch: dict = {}
        self.sites: dict = {}  # where containers were built

    def choose(self, n: int, label="") -> int:
        if n == 1:
            return 0
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise Unsupported("non-deterministic re-execution")
        self.trace.append((c, n))
        self.labels.append(f"{label}={c}")
        if len(self.trace) > 400:
            raise Budget("too many decisions on one path")
        return c


class _Ctx:
    path: Path = Path()
    runs = 0  # explorations so far


CTX = _Ctx()


def explore(run, limit=600):
    """run() for every sequence of decisions; yields (path, result)"""
    prefix = []
    count = 0
    CTX.runs += 1
    while True:
        p = Path(prefix)
        CTX.path = p
        r = run()
        yield p, r
        count += 1
        t = list(p.trace)
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        if count >= limit:
            p.sampled.append(f"path limit {limit} reached")
            return
        prefix = [c for c, _ in t]
        prefix[-1] += 1


# --------------------------------------------------------------------------- integers
LINEHOLE: dict = {}  # the variable of a hole's line breaks -> the hole


class AInt:
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = tuple(sorted(((v, c) for v, c in terms if c), key=lambda t: t[0].name))

    def norm(self):
        p = CTX.path
        for v, _ in self.terms:
            h = LINEHOLE.get(v)
            if h is not None and h in p.word and v not in p.intval:
                p.intval[v] = p.word[h].count("\n")
        if any(v in p.intval for v, _ in self.terms):
            const = self.const + sum(c * p.intval[v] for v, c in self.terms if v in p.intval)
            return mk_int(const, [(v, c) for v, c in self.terms if v not in p.intval])
        return self if self.terms else self.const

    def key(self):
        return (self.const, self.terms)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "(" + " + ".join([str(self.const)] + [f"{c}*{v}" for v, c in self.terms]) + ")"

    def _arith(self, o, f):
        return f(self, o)

    def __add__(self, o):
        return int_op("Add", self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return int_op("Sub", self, o)

    def __rsub__(self, o):
        return int_op("Sub", o, self)

    def __mul__(self, o):
        return int_op("Mult", self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return int_op("Sub", 0, self)

    def __pos__(self):
        return self

    def __index__(self):
        return conc_int(self)

    __int__ = __index__

    def __bool__(self):
        return int_truth(self)

    def __eq__(self, o):
        return int_cmp("Eq", self, o)

    def __ne__(self, o):
        return not int_cmp("Eq", self, o)

    def __lt__(self, o):
        return int_cmp("Lt", self, o)

    def __le__(self, o):
        return int_cmp("LtE", self, o)

    def __gt__(self, o):
        return int_cmp("Gt", self, o)

    def __ge__(self, o):
        return int_cmp("GtE", self, o)


def mk_int(const, terms):
    acc = {}
    for v, c in terms:
        acc[v] = acc.get(v, 0) + c
    a = AInt(const, acc.items())
    return a if a.terms else const


def _lin(x):
    if isinstance(x, AInt):
        x = x.norm()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return x, ()
    if isinstance(x, AInt):
        return x.const, x.terms
    return None


def int_op(op, a, b):
    la, lb = _lin(a), _lin(b)
    if la is None or lb is None:
        other = b if la is not None else a
        if isinstance(other, float):
            return native.binop(op, conc_int(a) if isinstance(a, AInt) else a, conc_int(b) if isinstance(b, AInt) else b)
        native.type_error("unsupported operand type(s)")
    (ca, ta), (cb, tb) = la, lb
    if op == "Add":
        return mk_int(ca + cb, ta + tb)
    if op == "Sub":
        return mk_int(ca - cb, ta + tuple((v, -c) for v, c in tb))
    if op == "Mult":
        if not ta:
            return mk_int(ca * cb, tuple((v, c * ca) for v, c in tb))
        if not tb:
            return mk_int(ca * cb, tuple((v, c * cb) for v, c in ta))
    return native.binop(op, conc_int(a), conc_int(b))


def var_lo(v):
    return max(v.lo, CTX.path.intlo.get(v, v.lo))


def var_hi(v):
    h = CTX.path.inthi.get(v)
    return v.hi if h is None else (h if v.hi is None else min(h, v.hi))


def interval(a):
    c, ts = _lin(a)
    lo = hi = c
    for v, k in ts:
        l, h = var_lo(v), var_hi(v)
        a1 = None if (k > 0 and l is None) or (k < 0 and h is None) else (l * k if k > 0 else h * k)
        a2 = None if (k > 0 and h is None) or (k < 0 and l is None) else (h * k if k > 0 else l * k)
        lo = None if lo is None or a1 is None else lo + a1
        hi = None if hi is None or a2 is None else hi + a2
    return lo, hi


def int_cmp(op, a, b):
    a0, b0 = a, b
    la, lb = _lin(a), _lin(b)
    if la is None or lb is None:
        if op == "Eq":
            return False
        if op == "NotEq":
            return True
        if isinstance(a, (float,)) or isinstance(b, (float,)):
            return native.compare(op, conc_int(a) if isinstance(a, AInt) else a, conc_int(b) if isinstance(b, AInt) else b)
        native.type_error(f"'{op}' not supported between instances")
    if op == "NotEq":
        return not int_cmp("Eq", a, b)
    d = int_op("Sub", a, b)
    if not isinstance(d, AInt):
        return native.compare(op, d, 0)
    lo, hi = interval(d)
    if op == "Eq":
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
    elif op == "Lt":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "LtE":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif op == "Gt":
        return int_cmp("Lt", b0, a0)
    elif op == "GtE":
        return int_cmp("LtE", b0, a0)
    p = CTX.path
    if len(d.terms) == 1:
        v, k = d.terms[0]
        # v*k + const op 0
        if op == "Eq":
            if d.const % k:
                return False
            at = -d.const // k
            if p.choose(2, f"{v}=={at}") == 0:
                _bind_int(v, at)
                return True
            if at == var_lo(v):
                p.intlo[v] = at + 1
            return False
        yes = p.choose(2, f"{d} {op}") == 0
        # k*v < -const  (strict) or <=
        bound = -d.const / k
        import math
        if (k > 0) == yes:  # upper bound on v
            strict = (op == "Lt") == yes
            b = math.ceil(bound) - 1 if strict else math.floor(bound)
            p.inthi[v] = b
        else:
            strict = (op == "Lt") == yes
            b = math.floor(bound) + 1 if strict else math.ceil(bound)
            p.intlo[v] = max(b, var_lo(v))
        _len_refine(v)
        return yes
    x = conc_int(a0) if isinstance(a0, AInt) else a0
    y = conc_int(b0) if isinstance(b0, AInt) else b0
    return native.compare(op, x, y)


def _bind_int(v, n):
    CTX.path.intval[v] = n
    _len_refine(v)


def _len_refine(v):
    p = CTX.path
    h = p.lenvars.get(v)
    if h is not None:
        measure = R.length_dfa
    elif v in p.cntvars:
        h, ch = p.cntvars[v]

        def measure(op, n):
            return R.count_dfa(op, n, ch)
    else:
        return
    d = hole_lang(h)
    if v in p.intval:
        d = d & measure("==", p.intval[v])
    else:
        if v in p.intlo:
            d = d & measure(">=", p.intlo[v])
        if v in p.inthi and p.inthi[v] is not None:
            d = d & measure("<=", p.inthi[v])
    set_lang(h, d)


def int_truth(a):
    return not int_cmp("Eq", a, 0)


def conc_int(a):
    if isinstance(a, AInt):
        a = a.norm()
    if not isinstance(a, AInt):
        return a
    p = CTX.path
    for v, _ in a.terms:
        if v in p.lenvars:
            conc_hole(p.lenvars[v])
            p.intval[v] = len(p.word[p.lenvars[v]])
            continue
        if v in p.cntvars:
            h, ch = p.cntvars[v]
            p.intval[v] = conc_hole(h).count(ch)
            continue
        lo, hi = var_lo(v), var_hi(v)
        opts = [lo, lo + 1, lo + 2, lo + 7, lo + 10 ** 20 + 1] if hi is None else sorted({lo, min(lo + 1, hi), hi})
        p.sampled.append(f"integer {v}")
        p.intval[v] = opts[p.choose(len(opts), f"{v}")]
    return a.norm()


# --------------------------------------------------------------------------- strings
def hole_lang(h):
    return CTX.path.lang.get(h, h.lang)


def set_lang(h, d):
    d = d.minimize()
    p = CTX.path
    p.lang[h] = d
    # a singleton language is a binding
    w = _singleton(d)
    if w is not None:
        p.word[h] = w


_sing_cache: dict = {}


def _singleton(d):
    k = id(d)
    c = _sing_cache.get(k)
    if c is not None and c[0] is d:
        return c[1]
    live = d.reverse_reach()
    s, w, seen = 0, "", set()
    res = None
    if 0 in live:
        while True:
            if s in seen:
                res = None
                break
            seen.add(s)
            outs = [(k2, t) for k2, t in enumerate(d.trans[s]) if t in live]
            if s in d.acc:
                res = w if not outs else None
                break
            if len(outs) != 1:
                break
            m = d.classes[outs[0][0]] & R.SIGMA
            if m & (m - 1) or not m:
                break
            w += R.LETTERS[m.bit_length() - 1]
            s = outs[0][1]
    _sing_cache[k] = (d, res)
    return res


def rep_word(h):
    p = CTX.path
    if h in p.word:
        return p.word[h]
    if h in p.parts:
        return "".join(map(rep_word, p.parts[h]))
    d = hole_lang(h)
    if d is h.lang or d.accepts(h.rep):
        return h.rep
    w = d.shortest()
    if w is None:
        raise Unsupported("empty refinement")
    return w


def expand(segs):
    """the segments with every hole that was cut replaced by its pieces"""
    parts = CTX.path.parts
    for s in segs:
        if isinstance(s, Hole) and s in parts:
            yield from expand(parts[s])
        else:
            yield s


def whole(segs):
    """the hole a list of segments consists of, if it is exactly one"""
    if len(segs) == 1:
        return segs[0]
    p = CTX.path
    for h in p.parts:
        if segs_of(mk([h])) == tuple(segs):
            return h
    return None


def cut_hole(h, right):
    """splits a hole into its first (last) character and the rest, exactly: one path per residual language"""
    from . import world
    p = CTX.path
    if h in p.word or h in p.lenvars.values() or any(h is c[0] for c in p.cntvars.values()) or h in INTVARS.values() or world.line_var(h) is not None:
        return False
    d = hole_lang(h)
    blocks = _cuts(d, right)
    if not blocks:
        return False
    i = p.choose(len(blocks), f"cut {h.name}")
    m, rest = blocks[i]
    if m is None:
        set_lang(h, R.EPS)
        return True
    one = Hole(h.name + (".last" if right else ".first"), h.kind, _memo(("mask", m), lambda: R.from_mask(m)))
    oth = Hole(h.name + (".init" if right else ".rest"), h.kind, rest)
    p.parts[h] = (oth, one) if right else (one, oth)
    for x in (one, oth):
        w = _singleton(x.lang)
        if w is not None:
            p.word[x] = w
    return True


_cut_cache: dict = {}


def _cuts(d, right):
    k = (id(d), right)
    r = _cut_cache.get(k)
    if r is not None and r[0] is d:
        return r[1]
    live = d.reverse_reach()
    by: dict = {}
    if right:
        for i, m in enumerate(d.classes):
            m &= R.SIGMA
            end = frozenset(s for s in live if d.trans[s][i] in d.acc)
            if m and end:
                by[end] = by.get(end, 0) | m
    elif 0 in live:
        for i, m in enumerate(d.classes):
            m &= R.SIGMA
            if m and d.trans[0][i] in live:
                by[d.trans[0][i]] = by.get(d.trans[0][i], 0) | m
    out = []
    if 0 in d.acc:
        out.append((None, None))
    try:
        for m in by.values():
            c = R.pick(m)
            rest = R.quotient(d, "" if right else c, c if right else "").minimize()
            if not rest.empty():
                out.append((m, rest))
    except R.Unsupported:
        out = []
    if len(out) > 12:
        out = []
    _cut_cache[k] = (d, out)
    return out


class AStr:
    __slots__ = ("segs", "cls")

    def __init__(self, segs, cls=str):
        self.segs = tuple(segs)
        self.cls = cls

    def norm(self):
        p = CTX.path
        out = []
        for s in expand(self.segs) if p.parts else self.segs:
            if isinstance(s, Hole):
                w = p.word.get(s)
                if w is None:
                    out.append(s)
                    continue
                s = w
            if s == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
        if not any(isinstance(s, Hole) for s in out):
            t = out[0] if out else ""
            return t if self.cls is str else str.__new__(self.cls, t)
        return AStr(out, self.cls)

    def holes(self):
        return [s for s in self.segs if isinstance(s, Hole)]

    def rep(self):
        return "".join(rep_word(s) if isinstance(s, Hole) else s for s in self.segs)

    def __repr__(self):
        t = "".join(f"<{s.name}>" if isinstance(s, Hole) else s for s in self.segs)
        return repr(t) + ("" if self.cls is str else f":{self.cls.__name__}")

    __str__ = __repr__

    def __hash__(self):
        return hash(("astr", self.segs))

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        return not str_eq(self, o)

    def __bool__(self):
        return str_truth(self)

    def __len__(self):
        return conc_int(str_len(self))

    def __iter__(self):
        return iter(conc(self))

    def __add__(self, o):
        return str_add(self, o)

    def __radd__(self, o):
        return str_add(o, self)

    def __getitem__(self, k):
        return str_item(self, k)

    def __contains__(self, x):
        return smeth("__contains__", self, (x,), {})

    def __lt__(self, o):
        return native.compare("Lt", conc(self), conc(o))

    def __le__(self, o):
        return native.compare("LtE", conc(self), conc(o))

    def __gt__(self, o):
        return native.compare("Gt", conc(self), conc(o))

    def __ge__(self, o):
        return native.compare("GtE", conc(self), conc(o))

    def __format__(self, spec):
        raise Unsupported("host formatting of an abstract string")

    def __getattr__(self, name):
        raise Unsupported(f"host attribute {name} of an abstract string")


class AToken(Token):
    """a token whose text has holes"""
    __slots__ = ("astr",)

    def __hash__(self):
        return hash(("atok", self.astr.segs))

    def __eq__(self, o):
        if isinstance(o, Token) and self.type != o.type:
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)


def as_astr(x):
    """abstract view of a string-like value, or None"""
    if isinstance(x, AToken):
        return x.astr
    if isinstance(x, AStr):
        return x
    if isinstance(x, str):
        return x
    return None


def snorm(x):
    """normalise a string-like value to str | AStr (class tag kept on AStr, dropped on concrete subclasses)"""
    x = as_astr(x)
    if isinstance(x, AStr):
        return x.norm()
    return x


def mk(segs, cls=str):
    return AStr(segs, cls).norm()


def segs_of(x):
    x = snorm(x)
    return x.segs if isinstance(x, AStr) else (str.__str__(x),)


def conc_hole(h, cap=None):
    p = CTX.path
    if h in p.word:
        return p.word[h]
    d = hole_lang(h)
    ws = samples(d)
    if not ws:
        raise Unsupported("empty language")
    p.sampled.append(f"text {h.name}")
    n_before = len([1 for x in p.sampled if x.startswith("text ")])
    if n_before > 2:
        ws = ws[:2]
    if cap and len(ws) > cap:
        other = [w for w in ws if w[-1:] != ws[0][-1:]]
        ws = [*ws[:1], *other[-1:], *ws[1:]][:cap]
    w = ws[p.choose(len(ws), f"{h.name}")]
    p.word[h] = w
    return w


_samples: dict = {}


def samples(d, cap=28):
    k = id(d)
    c = _samples.get(k)
    if c is None or c[0] is not d:
        ws = d.sample()
        ws = [w for w in ws if "\x00" not in w]
        if len(ws) > cap:
            # keep the shortest and a spread of the rest
            step = (len(ws) - 1) / (cap - 1)
            ws = [ws[round(i * step)] for i in range(cap)]
        c = _samples[k] = (d, list(dict.fromkeys(ws)))
    return c[1]


def conc(x):
    """replace the remaining holes by representative words (recorded as sampled)"""
    x = snorm(x)
    if isinstance(x, AStr):
        for h in x.holes():
            conc_hole(h)
        return x.norm()
    return x


_lang_cache: dict = {}


def str_lang(x) -> R.DFA:
    x = snorm(x)
    if not isinstance(x, AStr):
        return R.word(str.__str__(x))
    key = tuple((s, id(hole_lang(s))) if isinstance(s, Hole) else s for s in x.segs)
    d = _lang_cache.get(key)
    if d is None:
        try:
            d = R.concat(*[hole_lang(s) if isinstance(s, Hole) else R.word(s) for s in x.segs])
        except R.Unsupported as e:
            raise Unsupported(str(e)) from None
        _lang_cache[key] = d
        _keep.extend(hole_lang(s) for s in x.segs if isinstance(s, Hole))
    return d


_keep: list = []
_q_cache: dict = {}


def _quot(d, pre, post):
    k = (id(d), pre, post)
    r = _q_cache.get(k)
    if r is None or r[0] is not d:
        r = _q_cache[k] = (d, R.quotient(d, pre, post).minimize())
    return r[1]


_split_cache: dict = {}


def _split(h_lang, q):
    k = (id(h_lang), id(q))
    r = _split_cache.get(k)
    if r is None or r[0] is not h_lang or r[1] is not q:
        r = _split_cache[k] = (h_lang, q, (h_lang & q).minimize(), (h_lang - q).minimize())
    return r[2], r[3]


def decide(x, lang: R.DFA, label="") -> bool:
    """is the string in the regular language? (splits the path when undetermined)"""
    while True:
        x = snorm(x)
        if not isinstance(x, AStr):
            return lang.accepts(str.__str__(x))
        hs = x.holes()
        if len(hs) == 1:
            h = hs[0]
            i = x.segs.index(h)
            pre = "".join(x.segs[:i])
            post = "".join(x.segs[i + 1:])
            q = _quot(lang, pre, post)
            yes, no = _split(hole_lang(h), q)
            if yes.empty():
                return False
            if no.empty():
                return True
            if CTX.path.choose(2, f"{label}({h.name})") == 0:
                set_lang(h, yes)
                return True
            set_lang(h, no)
            return False
        if len(hs) > 6 or sum(len(s) for s in x.segs if isinstance(s, str)) > 400:
            return decide_by_samples(x, lang)
        whole = str_lang(x)
        yes, no = _split(whole, lang)
        if yes.empty():
            return False
        if no.empty():
            return True
        conc_hole(min(hs, key=lambda h: len(samples(hole_lang(h)))))


def decide_by_samples(x, lang):
    a = lang.accepts(x.rep())
    CTX.path.sampled.append("long text predicate")
    return a


def str_truth(x):
    x = snorm(x)
    if not isinstance(x, AStr):
        return bool(str.__len__(x))
    if any(isinstance(s, str) and s for s in x.segs):
        return True
    return not decide(x, R.EPS, "empty")


def str_eq(a, b):
    if b is None or isinstance(b, (bool, int, float, list, dict, tuple, AInt)):
        return False
    if isinstance(b, Sym):
        return sym_eq(b, a)
    if as_astr(b) is None:
        return False
    a, b = snorm(a), snorm(b)
    if not isinstance(a, AStr) and not isinstance(b, AStr):
        return str.__eq__(a, b)
    if isinstance(a, AStr) and isinstance(b, AStr):
        if a.segs == b.segs:
            return True
        if len(a.segs) == len(b.segs) == 1:
            x, y = a.segs[0], b.segs[0]
            if x.distinct is not None and x.distinct == y.distinct:
                return False
        # common literal prefix / suffix
        sa, sb = list(a.segs), list(b.segs)
        while sa and sb and sa[0] == sb[0]:
            sa.pop(0)
            sb.pop(0)
        while sa and sb and sa[-1] == sb[-1]:
            sa.pop()
            sb.pop()
        a2, b2 = mk(sa), mk(sb)
        if not isinstance(a2, AStr) or not isinstance(b2, AStr):
            return str_eq(a2, b2) if isinstance(a2, AStr) or isinstance(b2, AStr) else a2 == b2
        if CTX.path.parts and (len(sa) > 1 or len(sb) > 1):
            h, g = whole(sa), whole(sb)
            if isinstance(h, Hole) and isinstance(g, Hole) and h.distinct is not None and h.distinct == g.distinct:
                return h is g
        if len(sa) == len(sb) == 1 and sa[0].distinct is not None and sa[0].distinct == sb[0].distinct:
            return False
        if (str_lang(a2) & str_lang(b2)).empty():
            return False
        conc(b2)
        return str_eq(a2, b2)
    if isinstance(b, AStr):
        a, b = b, a
    return decide(a, R.word(str.__str__(b)), f"=={b}")


def str_len(x):
    x = snorm(x)
    if not isinstance(x, AStr):
        return str.__len__(x)
    p = CTX.path
    const, terms = 0, []
    for s in x.segs:
        if isinstance(s, str):
            const += len(s)
            continue
        d = hole_lang(s)
        n = _fixed_len(d)
        if n is not None:
            const += n
            continue
        for v, h in p.lenvars.items():
            if h is s:
                break
        else:
            v = Var(f"len({s.name})", len(d.shortest() or ""))
            p.lenvars[v] = s
        terms.append((v, 1))
    return mk_int(const, terms)


def min_len(x):
    """a lower bound of the length"""
    x = snorm(x)
    if not isinstance(x, AStr):
        return str.__len__(x)
    return sum(len(s) if isinstance(s, str) else len(hole_lang(s).shortest() or "") for s in x.segs)


def _fixed_len(d):
    d = d.minimize()
    live = d.reverse_reach()
    level, depth = {0}, 0
    if 0 not in live:
        return None
    seen = 0
    while True:
        acc = [s in d.acc for s in level]
        nxt = {t for s in level for t in d.trans[s] if t in live}
        if any(acc):
            return depth if all(acc) and not nxt else None
        if depth > len(d.trans):
            return None
        level, depth = nxt, depth + 1


def str_add(a, b):
    if as_astr(a) is None or as_astr(b) is None:
        native.type_error("can only concatenate str to str")
    return mk(segs_of(a) + segs_of(b))


def _cut(x, n, right=False):
    """split off n characters; returns (taken, rest) as segment lists or None when a hole of open length is cut"""
    segs = list(x.segs)
    taken = []
    while n > 0 and segs:
        s = segs[-1] if right else segs[0]
        if isinstance(s, Hole):
            k = _fixed_len(hole_lang(s))
            if k is None or k > n:
                return None
            segs.pop(-1 if right else 0)
            taken.append(s)
            n -= k
            continue
        segs.pop(-1 if right else 0)
        if len(s) <= n:
            taken.append(s)
            n -= len(s)
        elif right:
            taken.append(s[len(s) - n:])
            segs.append(s[: len(s) - n])
            n = 0
        else:
            taken.append(s[:n])
            segs.insert(0, s[n:])
            n = 0
    if right:
        taken.reverse()
    return taken, segs


def _drop(x, n, right=False):
    """x without its first (last) n characters"""
    while True:
        x = snorm(x)
        if not isinstance(x, AStr):
            return x[: max(len(x) - n, 0)] if right and n else x[n:] if not right else x
        c = _cut(x, n, right)
        if c is not None:
            return mk(c[1])
        _conc_end(x, right)


def _take(x, n, right=False):
    while True:
        x = snorm(x)
        if not isinstance(x, AStr):
            return (x[-n:] if n else "") if right else x[:n]
        c = _cut(x, n, right)
        if c is not None:
            return mk(c[0])
        _conc_end(x, right)


def _conc_end(x, right):
    h = x.holes()[-1 if right else 0]
    if len(CTX.path.parts) > 8 or not cut_hole(h, right):
        conc_hole(h)


def place(x, pos):
    """(segment, offset) of a position known relative to the lengths of the segments before it, else None"""
    if type(pos) is int and pos < 0:
        return None
    before = 0
    for i, s in enumerate(x.segs):
        d = int_op("Sub", pos, before)
        if type(d) is int and (d == 0 or 0 < d <= len(s) and isinstance(s, str)):
            return (i, d)
        before = int_op("Add", before, str_len(mk([s])))
    d = int_op("Sub", pos, before)
    return (len(x.segs), 0) if type(d) is int and d == 0 else None


def _from(segs, at):
    i, d = at
    return [segs[i][d:], *segs[i + 1:]] if d else list(segs[i:])


def _upto(segs, a, b):
    out = list(segs[a[0]: b[0]]) + ([segs[b[0]][: b[1]]] if b[1] else [])
    if a[1] and out:
        out[0] = out[0][a[1]:]
    return out


def str_item(x, k):
    x = snorm(x)
    if not isinstance(x, AStr):
        return native.getitem(str.__str__(x), k)
    if isinstance(k, slice):
        if (isinstance(k.start, AInt) or isinstance(k.stop, AInt)) and k.step in (None, 1):
            cuts = [place(x, v) for v in (k.start, k.stop) if v is not None]
            if None not in cuts:
                end = cuts[-1] if k.stop is not None else None
                rest = _from(x.segs, cuts[0]) if k.start is not None else list(x.segs)
                if end is not None:
                    if k.start is not None and (end[0], end[1]) < (cuts[0][0], cuts[0][1]):
                        return ""
                    rest = _upto(x.segs, cuts[0] if k.start is not None else (0, 0), end)
                return mk(rest)
        a, b, st = (conc_int(v) if isinstance(v, AInt) else v for v in (k.start, k.stop, k.step))
        if st not in (None, 1):
            return native.getitem(conc(x), slice(a, b, st))
        # slices that keep at least everything between the ends commute when the string is long enough
        minlen = min_len(x)
        need = (a if a and a > 0 else 0) + (-b if b is not None and b < 0 else 0)
        if b is None or b < 0:
            r = x
            if (a is None or a >= 0) and (minlen is not None and minlen >= need):
                if a:
                    r = _drop(r, a)
                if b:
                    r = _drop(r, -b, right=True)
                return r
            if a is not None and a < 0 and b is None and minlen is not None and minlen >= -a:
                return _take(x, -a, right=True)
            if a is not None and a < 0 and b is not None and minlen is not None and minlen >= -a:
                return _drop(_take(x, -a, right=True), -b, right=True)
        elif a is None or 0 <= a <= b:
            if minlen is not None and minlen >= b:
                return _drop(_take(x, b), a or 0)
        need = max((abs(v) for v in (a, b) if isinstance(v, int)), default=0)
        if 0 < need <= 5000 and minlen is not None and minlen < need:
            # shorter texts have nothing beyond that end
            if decide(x, R.length_dfa(">=", need), f"length >= {need}"):
                x = snorm(x)
                if not isinstance(x, AStr):
                    return native.getitem(x, slice(a, b, st))
                if need > 6:
                    decide(x, R.length_dfa(">=", need + 3), f"length >= {need + 3}")
                    x = snorm(x)
                    if not isinstance(x, AStr):
                        return native.getitem(x, slice(a, b, st))
                    for h in x.holes():
                        conc_hole(h, 2)
                    return native.getitem(x.norm(), slice(a, b, st))
                if min_len(x) >= need:
                    return str_item(x, k)
            else:
                if a is not None and abs(a) == need:
                    if a > 0:
                        return ""
                    a = None
                if b is not None and abs(b) == need:
                    if b < 0:
                        return ""
                    b = None
                return str_item(x, slice(a, b, st))
        return native.getitem(conc(x), slice(a, b, st))
    if isinstance(k, AInt):
        k = conc_int(k)
    if isinstance(k, int):
        m = min_len(x)
        if k >= 0 and m is not None and m > k:
            r = _take(x, k + 1)
            return native.getitem(r, k) if isinstance(r, str) else _drop(r, k)
        if k < 0 and m is not None and m >= -k:
            r = _take(x, -k, right=True)
            return native.getitem(r, 0) if isinstance(r, str) else _take(r, 1)
    return native.getitem(conc(x), k)


_class_cache: dict = {}


def lang_prefix(p):
    return _memo(("pre", p), lambda: R.concat(R.word(p), R.SIGMA_STAR))


def lang_suffix(p):
    return _memo(("suf", p), lambda: R.concat(R.SIGMA_STAR, R.word(p)))


def lang_contains(p):
    return _memo(("con", p), lambda: R.concat(R.SIGMA_STAR, R.word(p), R.SIGMA_STAR))


def _memo(k, f):
    r = _class_cache.get(k)
    if r is None:
        r = _class_cache[k] = f()
    return r


def startswith(x, p):
    x = snorm(x)
    p = snorm(p)
    if isinstance(p, AStr):
        if isinstance(x, AStr) and x.segs[: len(p.segs)] == p.segs:
            return True
        p = conc(p)
        x = snorm(x)
    if not isinstance(x, AStr):
        return str.startswith(x, p)
    if isinstance(x.segs[0], str) and len(x.segs[0]) >= len(p):
        return x.segs[0].startswith(p)
    return decide(x, lang_prefix(str.__str__(p)), f"startswith {p!r}")


def endswith(x, p):
    x = snorm(x)
    p = snorm(p)
    if isinstance(p, AStr):
        if isinstance(x, AStr) and p.segs and x.segs[-len(p.segs):] == p.segs:
            return True
        p = conc(p)
        x = snorm(x)
    if not isinstance(x, AStr):
        return str.endswith(x, p)
    if isinstance(x.segs[-1], str) and len(x.segs[-1]) >= len(p):
        return x.segs[-1].endswith(p)
    return decide(x, lang_suffix(str.__str__(p)), f"endswith {p!r}")


def _occurs_across(x, i, sep):
    """language test: can an occurrence of sep touch hole i of x? -> DFA of hole words for which it does not"""
    k = len(sep) - 1
    pre = post = ""
    j = i - 1
    while k and j >= 0 and len(pre) < k:
        if isinstance(x.segs[j], Hole):
            return None
        pre = x.segs[j] + pre
        j -= 1
    j = i + 1
    while k and j < len(x.segs) and len(post) < k:
        if isinstance(x.segs[j], Hole):
            return None
        post = post + x.segs[j]
        j += 1
    pre = pre[-k:] if k else ""
    post = post[:k] if k else ""
    return pre, post


def free_of(x, sep):
    """make sure no occurrence of sep touches a hole; True when the remaining holes are free of it"""
    skip = set()
    while True:
        x = snorm(x)
        if not isinstance(x, AStr):
            return x
        again = False
        for i, s in enumerate(x.segs):
            if not isinstance(s, Hole) or s in skip:
                continue
            ctx = _occurs_across(x, i, sep)
            if ctx is None:
                # adjacent hole within reach
                if (hole_lang(s) & R.concat(R.SIGMA_STAR, R.from_mask(_chars(sep)), R.SIGMA_STAR)).empty():
                    continue
                conc_hole(s)
                again = True
                break
            pre, post = ctx
            q = _quot(lang_contains(sep), pre, post)
            yes, no = _split(hole_lang(s), q)
            if yes.empty():
                continue
            if len(x.segs) > 12 and "\n" not in sep and not no.empty() and sep not in pre + rep_word(s) + post:
                CTX.path.sampled.append("long text search")
                skip.add(s)
                continue
            if no.empty() or CTX.path.choose(2, f"{sep!r} in {s.name}") == 0:
                if not no.empty():
                    set_lang(s, yes)
                conc_hole(s)
            else:
                set_lang(s, no)
            again = True
            break
        if not again:
            return x


def _chars(sep):
    m = 0
    for c in sep:
        m |= R.letter(c)
    return m


def _strip(x, chars, left, right):
    if chars is None:
        m = R.S
    else:
        chars = conc(chars)
        m = _chars(chars)

    def inset(c):
        return bool(m & R.letter(c)) if chars is None else c in chars

    for side in ("l", "r"):
        if (side == "l" and not left) or (side == "r" and not right):
            continue
        while True:
            x = snorm(x)
            if not isinstance(x, AStr):
                x = (str.lstrip if side == "l" else str.rstrip)(x, chars)
                break
            segs = list(x.segs)
            s = segs[0 if side == "l" else -1]
            if isinstance(s, str):
                t = s.lstrip(chars) if side == "l" else s.rstrip(chars)
                if side == "l":
                    segs[0] = t
                else:
                    segs[-1] = t
                x = AStr(segs)
                if t:
                    break
                continue
            one = R.from_mask(m)
            if decide(mk([s]), R.EPS, "empty"):
                continue
            bad = _memo((side, m), lambda: R.concat(one, R.SIGMA_STAR) if side == "l" else R.concat(R.SIGMA_STAR, one))
            if decide(mk([s]), bad, f"{side}strip"):
                conc_hole(s)
                continue
            break
    x = snorm(x)
    return x


ISX = {
    "isdigit": str.isdigit, "isdecimal": str.isdecimal, "isnumeric": str.isnumeric, "isalpha": str.isalpha,
    "isalnum": str.isalnum, "isspace": str.isspace, "isascii": str.isascii, "isprintable": str.isprintable,
}
CASE = {"lower", "upper", "casefold", "swapcase", "title", "capitalize", "encode", "expandtabs", "translate", "center",
        "ljust", "rjust", "zfill", "splitlines", "istitle", "isupper", "islower", "isidentifier"}


def _count_char(x, ch):
    from . import world
    p = CTX.path
    const, terms = 0, []
    for s in x.segs:
        if isinstance(s, str):
            const += s.count(ch)
        elif not (hole_lang(s) & lang_contains(ch)).empty():
            v = world.line_var(s) if ch == "\n" else None
            if v is None:
                v = next((v for v, (h, c) in p.cntvars.items() if h is s and c == ch), None) or Var(f"count({ch!r} in {s.name})", 0)
            p.cntvars[v] = (s, ch)
            terms.append((v, 1))
    return mk_int(const, terms)


def smeth(name, x, args, kw):
    """a method of str on an abstract string"""
    x = snorm(x)
    args = [snorm(a) if as_astr(a) is not None else a if isinstance(a, AInt) and isinstance(x, AStr) and name in (
        "find", "index", "count") else conc_int(a) if isinstance(a, AInt) else a for a in args]
    if not isinstance(x, AStr) and not any(isinstance(a, AStr) for a in args) and name not in ("join", "format"):
        return native.call(native.attr(str.__str__(x), name), args, kw)
    if not isinstance(x, AStr) and name not in ("join", "format"):
        if name == "__contains__" or name in ("startswith", "endswith", "removeprefix", "removesuffix", "__eq__"):
            pass
        elif name in ("split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "find", "index", "count"):
            args = [conc(a) if isinstance(a, AStr) else a for a in args]
            return native.call(native.attr(str.__str__(x), name), args, kw)
    if name in ("startswith", "endswith"):
        f = startswith if name == "startswith" else endswith
        if len(args) > 1 or kw:
            return native.call(native.attr(conc(x), name), [conc(a) if isinstance(a, AStr) else a for a in args], kw)
        if isinstance(args[0], tuple):
            return any(f(x, p) for p in args[0])
        if as_astr(args[0]) is None:
            native.type_error(f"{name} first arg must be str")
        return f(x, args[0])
    if name == "removeprefix":
        return _drop(x, str_len_c(args[0])) if startswith(x, args[0]) else snorm(x)
    if name == "removesuffix":
        n = str_len_c(args[0])
        return _drop(x, n, True) if n and endswith(x, args[0]) else snorm(x)
    if name in ("strip", "lstrip", "rstrip"):
        return _strip(x, args[0] if args else None, name != "rstrip", name != "lstrip")
    if name == "__contains__":
        sep = args[0]
        if as_astr(sep) is None:
            native.type_error("'in <string>' requires string as left operand")
        if isinstance(sep, AStr):
            if isinstance(x, AStr):
                n = len(sep.segs)
                if any(x.segs[i: i + n] == sep.segs for i in range(len(x.segs) - n + 1)):
                    return True
            sep = conc(sep)
            x = snorm(x)
            if not isinstance(x, AStr):
                return sep in x
        if any(isinstance(s, str) and sep in s for s in x.segs):
            return True
        if len(x.segs) > 12:
            CTX.path.sampled.append("long text search")
            return sep in x.rep()
        return decide(x, lang_contains(sep), f"{sep!r} in")
    if name in ("find", "index", "rfind", "rindex", "count"):
        sep = conc(args[0])
        if len(args) == 2 and name in ("find", "index", "count"):
            y = str_item(x, slice(args[1], None, None)) if isinstance(args[1], AInt) else None
            if y is not None:
                r = smeth(name, y, [sep], {})
                return r if name == "count" or type(r) is int and r < 0 else int_op("Add", args[1], r)
        if len(args) > 1:
            return native.call(native.attr(conc(x), name), [conc_int(a) if isinstance(a, AInt) else a for a in args], kw)
        if name == "count":
            x = snorm(x)
            if isinstance(x, AStr) and len(x.segs) > 6:
                n = x.rep().count(sep)
                CTX.path.sampled.append(f"count {sep!r}")
                return n
            if isinstance(x, AStr) and len(sep) == 1:
                return _count_char(x, sep)
        x = free_of(x, sep)
        if not isinstance(x, AStr):
            return native.call(native.attr(x, name), [sep], kw)
        if name == "count":
            return sum(s.count(sep) for s in x.segs if isinstance(s, str))
        idx = [i for i, s in enumerate(x.segs) if isinstance(s, str) and sep in s]
        if not idx:
            if name in ("index", "rindex"):
                native.value_error("substring not found")
            return -1
        i = idx[0] if name in ("find", "index") else idx[-1]
        off = x.segs[i].find(sep) if name in ("find", "index") else x.segs[i].rfind(sep)
        return int_op("Add", str_len(mk(x.segs[:i])) if i else 0, off)
    if name in ("split", "rsplit"):
        sep = args[0] if args else kw.get("sep")
        mx = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
        if sep is None:
            return native.call(native.attr(conc(x), name), [None, mx], {})
        sep = conc(sep)
        if sep == "":
            native.value_error("empty separator")
        x = free_of(x, sep)
        if not isinstance(x, AStr):
            return native.call(native.attr(x, name), [sep, mx], {})
        return _split_at(x, sep, mx, name == "rsplit")
    if name in ("partition", "rpartition"):
        sep = conc(args[0])
        x = free_of(x, sep)
        if not isinstance(x, AStr):
            return native.call(native.attr(x, name), [sep], {})
        r = _split_at(x, sep, 1, name == "rpartition")
        if len(r) == 1:
            return (r[0], "", "") if name == "partition" else ("", "", r[0])
        return (r[0], sep, r[1])
    if name == "replace":
        old, new = conc(args[0]), args[1]
        cnt = args[2] if len(args) > 2 else kw.get("count", -1)
        if old == "" or cnt != -1:
            return native.call(native.attr(conc(x), name), [old, conc(new), cnt], {})
        x = free_of(x, old)
        if not isinstance(x, AStr):
            parts = x.split(old)
        else:
            parts = _split_at(x, old, -1, False)
        out = list(segs_of(parts[0]))
        for q in parts[1:]:
            out += list(segs_of(new)) + list(segs_of(q))
        return mk(out)
    if name == "join":
        from . import interp
        items = list(interp.iterate(args[0]))
        out = []
        for i, it in enumerate(items):
            it = interp.force(it)
            if as_astr(it) is None:
                native.type_error(f"sequence item {i}: expected str instance")
            if i:
                out += list(segs_of(x))
            out += list(segs_of(it))
        return mk(out)
    if name in ISX:
        m = R.mask(ISX[name])
        d = _memo(("is", name), lambda: R.concat(R.from_mask(m), R.star(R.from_mask(m))) if name not in (
            "isascii", "isprintable") else R.star(R.from_mask(m)))
        return decide(x, d, name)
    if name in ("lower", "upper", "casefold"):
        f = getattr(str, name)
        keep = R.mask(lambda c: f(c) == c)
        d = _memo(("case", name), lambda: R.star(R.from_mask(keep)))
        out = []
        for s in x.segs:
            if isinstance(s, str):
                out.append(f(s))
            elif (hole_lang(s) - d).empty():
                out.append(s)
            else:
                if decide(mk([s]), d, name):
                    out.append(s)
                else:
                    out.append(f(conc(mk([s]))))
        return mk(out)
    if name in ("__str__", "__repr__", "__format__"):
        return x if name == "__str__" else conc(x)
    if name == "__len__":
        return str_len(x)
    if name == "__eq__":
        return str_eq(x, args[0])
    if name == "__ne__":
        return not str_eq(x, args[0])
    if name == "__add__":
        return str_add(x, args[0])
    if name == "__getitem__":
        return str_item(x, args[0])
    if name == "__hash__":
        return hash(x)
    if name == "format":
        return _format(x, args, kw)
    cx = conc(x)
    return native.call(native.attr(cx, name), [conc(a) if isinstance(a, AStr) else a for a in args], kw)


def _format(x, args, kw):
    from . import interp
    x = conc(x)
    import string
    out = []
    auto = 0
    try:
        parts = list(string.Formatter().parse(x))
    except ValueError as e:
        native.throw(e)
    for lit, field, spec, conv in parts:
        out.append(lit)
        if field is None:
            continue
        if not re.fullmatch(r"\w*", field):
            raise Unsupported("format field")
        if field == "":
            v = native.getitem(args, auto)
            auto += 1
        elif field.isdigit():
            v = native.getitem(args, int(field))
        else:
            v = native.getitem(kw, field)
        out += segs_of(interp.format_value(v, conv, spec or ""))
    return mk(out)


def str_len_c(x):
    n = str_len(x)
    return conc_int(n) if isinstance(n, AInt) else n


def _split_at(x, sep, mx, right):
    parts = [[]]
    left = mx if mx is not None and mx >= 0 else 10**9
    seq = []
    for s in x.segs:
        if isinstance(s, Hole):
            seq.append(s)
        else:
            bits = s.split(sep) if not right else s.split(sep)
            # str.split from the left; overlapping separators are the same from the right only for simple ones
            for i, b in enumerate(bits):
                if i:
                    seq.append(None)
                seq.append(b)
    total = sum(1 for s in seq if s is None)
    skip_first = total - left if right and total > left else 0
    done = 0
    for s in seq:
        if s is None:
            if right and done < skip_first:
                parts[-1].append(sep)
            elif not right and done >= left:
                parts[-1].append(sep)
            else:
                parts.append([])
            done += 1
        else:
            parts[-1].append(s)
    return [mk(p) for p in parts]


def to_int(x):
    x = snorm(x)
    if not isinstance(x, AStr):
        return native.call(int, [x], {})
    if len(x.segs) == 1:
        h = x.segs[0]
        digits = _memo("digits", lambda: R.lang(r"[0-9]+"))
        if digits.includes(hole_lang(h)):
            p = CTX.path
            for v, hh in INTVARS.items():
                if hh is h:
                    return mk_int(0, [(v, 1)])
            v = Var(f"int({h.name})", 0)
            INTVARS[v] = h
            return mk_int(0, [(v, 1)])
    return native.call(int, [conc(x)], {})


INTVARS: dict = {}


# --------------------------------------------------------------------------- opaque expression results
class Sym:
    __slots__ = ("name", "archs")

    def __init__(self, name, archs):
        self.name = name
        self.archs = archs  # tuple of archetype names

    def __repr__(self):
        return f"«{self.name}»"

    def __hash__(self):
        return hash(("sym", self.name))

    def __bool__(self):
        from . import interp
        return interp.truth(self)

    def __eq__(self, o):
        return sym_eq(self, o)

    def __ne__(self, o):
        return not sym_eq(self, o)

    def __iter__(self):
        from . import interp
        return iter(interp.iterate(force(self)))

    def __len__(self):
        raise Unsupported("host length of a symbol")

    def __getattr__(self, name):
        raise Unsupported(f"host attribute {name} of a symbol")


MAKERS: dict = {}  # archetype name -> function(sym) -> value; filled by the specification


def candidates(s):
    return CTX.path.cands.get(s.name, s.archs)


def arch_value(s, a):
    k = (s.name, a)
    p = CTX.path
    if k not in p.arch:
        p.arch[k] = MAKERS[a](s.name)
    return p.arch[k]


def resolved(s):
    """the value of a symbol when only one shape is left, else None wrapped"""
    c = candidates(s)
    if len(c) == 1:
        return (arch_value(s, c[0]),)
    return None


class _Unknown:
    def __repr__(self):
        return "?"


UNKNOWN = _Unknown()


def observe(s, f, label=""):
    """split the shapes of ``s`` by the outcome of ``f``; returns the outcome or UNKNOWN with ``s`` fully resolved"""
    c = candidates(s)
    groups: dict = {}
    for a in c:
        o = f(arch_value(s, a))
        groups.setdefault((a if o is UNKNOWN else None, o if o is not UNKNOWN else None, type(o)), []).append((a, o))
    keys = list(groups)
    k = keys[CTX.path.choose(len(keys), f"{s.name}:{label}")]
    CTX.path.cands[s.name] = tuple(a for a, _ in groups[k])
    return groups[k][0][1]


def force(x):
    while isinstance(x, Sym):
        c = candidates(x)
        i = CTX.path.choose(len(c), f"{x.name}")
        CTX.path.cands[x.name] = (c[i],)
        x = arch_value(x, c[i])
    return x


def static_truth(v):
    """truth value without deciding anything"""
    if isinstance(v, AStr):
        n = v.norm()
        if not isinstance(n, AStr):
            return bool(n)
        if any(isinstance(s, str) for s in n.segs):
            return True
        if all(not hole_lang(h).accepts("") for h in n.holes()):
            return True
        return UNKNOWN
    if isinstance(v, AInt):
        lo, hi = interval(v)
        if lo is not None and lo > 0:
            return True
        return UNKNOWN
    if isinstance(v, Sym):
        return UNKNOWN
    return bool(v)


def static_eq(a, b):
    """equality without deciding anything"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
            return True
        return UNKNOWN
    if as_astr(a) is not None and as_astr(b) is not None:
        a, b = snorm(a), snorm(b)
        if not isinstance(a, AStr) and not isinstance(b, AStr):
            return str.__eq__(a, b)
        if isinstance(a, AStr) and isinstance(b, AStr) and a.segs == b.segs:
            return True
        try:
            if (str_lang(a) & str_lang(b)).empty():
                return False
        except Engine:
            pass
        return UNKNOWN
    if as_astr(a) is not None or as_astr(b) is not None:
        return False
    if isinstance(a, AInt) or isinstance(b, AInt):
        if _lin(a) is None or _lin(b) is None:
            return False
        d = int_op("Sub", a, b)
        if not isinstance(d, AInt):
            return d == 0
        lo, hi = interval(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        return UNKNOWN
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        rs = [static_eq(x, y) for x, y in zip(a, b)]
        return False if False in [r for r in rs if r is not UNKNOWN] else UNKNOWN if UNKNOWN in rs else True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return UNKNOWN
    if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
        return False
    return bool(a == b)


def sym_eq(s, o):
    if isinstance(o, Sym) and o.name == s.name:
        return True
    if isinstance(o, Sym) and len(candidates(o)) > 1:
        o = force(o)
    r = observe(s, lambda v: static_eq(v, o), "eq")
    if r is UNKNOWN:
        v = resolved(s)[0]
        return bool(native.compare("Eq", v, o))
    return r
