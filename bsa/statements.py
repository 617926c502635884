"""Statement templates: every kind of declaration with every subset of its optional parts."""
from __future__ import annotations

import itertools

from . import forms as X
from . import relang as R
from .spec import E, Case, F, I, L, M, M1, N, S, SI, el, flat, hole, ident_lang, num, st  # noqa: F401

TYPE_TEXT = r"[^'@\\$\s]+"


def TN(name):
    """the type part of a resource type"""
    return hole(name, "K", L(TYPE_TEXT), f"Zq.{name}/t")


def VN(name):
    """the version part of a resource type"""
    return hole(name, "V", L(TYPE_TEXT), f"2020-{name}")


def PATH(name):
    """a local module path"""
    if "path" not in _l:
        bad = R.concat(R.words("br:", "br/", "ts:", "ts/"), R.SIGMA_STAR)
        _l["path"] = (L(r"[^'\\$\n\r]+") - bad).minimize()
    return hole(name, "P", _l["path"], f"./{name}.bicep")


_l: dict = {}


class Stmt:
    """a statement and the entries it must give; scope is the value of the target scope it sets"""

    def __init__(self, name, segs, entries, scope=None, kind=None):
        self.name, self.segs, self._entries, self.scope, self.kind = name, flat(segs), entries, scope, kind or name

    def entries(self):
        return self._entries() if callable(self._entries) else self._entries


def document(stmts, extra=()):
    scope = "resourceGroup"
    out = []
    for s in stmts:
        if s.scope:
            scope = s.scope
        out += s.entries()
    return X.doc(*out, *extra, scope=scope)


def file_case(name, stmts, sep="\n", end="\n", **kw):
    segs = []
    for i, s in enumerate(stmts):
        if i:
            segs.append(sep)
        segs += s.segs
    segs.append(end)
    return Case(name, segs, lambda: document(stmts), **kw)


# --------------------------------------------------------------------------- decorators
class Deco:
    def __init__(self, name, segs, want):
        self.name, self.segs, self._want = name, flat(segs), want

    def want(self):
        return self._want() if callable(self._want) else self._want


def decorator_list(n, plain_bounds=False):
    from . import tables as T
    out = []
    for name, (ty, arg) in T.DECORATORS.items():
        for pre in ("", "sys."):
            if arg:
                e = E(f"{n}{name}")
                if plain_bounds and ty in ("min_value", "max_value"):
                    out.append(Deco(f"{pre}{name}", f"@{pre}{name}(-7)", {"type": ty, "argument": -7}))
                    continue
                out.append(Deco(f"{pre}{name}", [f"@{pre}{name}(", e, ")"],
                                lambda ty=ty, e=e: {"type": ty, "argument": X.bound(ty, e.val())}))
            else:
                out.append(Deco(f"{pre}{name}", f"@{pre}{name}()", {"type": ty}))
    e = E(f"{n}unk")
    out.append(Deco("unknown", ["@zqdeco(", e, ")"], lambda e=e: {"type": "zqdeco", "argument": e.val()}))
    out.append(Deco("unknown without argument", "@zqdeco()", {"type": "zqdeco"}))
    return out


def with_decorators(stmt, decos, sep="\n"):
    segs = []
    for d in decos:
        segs += [*d.segs, sep]

    def entries():
        out = []
        for i, (sec, name, attrs) in enumerate(stmt.entries()):
            attrs = dict(attrs)
            if i == 0:
                attrs["decorators"] = [d.want() for d in decos]
            out.append((sec, name, attrs))
        return out
    return Stmt(f"{stmt.name} with {', '.join(d.name for d in decos)}", [*segs, *stmt.segs], entries, kind=stmt.kind)


# --------------------------------------------------------------------------- statements
def types(n):
    a, b = I(n + "ta"), I(n + "tb")
    return [
        ("name", [a], lambda: st(a)),
        ("array", [a, "[]"], lambda: X.array_t(st(a))),
        ("union", ["(", a, " | ", b, ")"], lambda: X.union_t(st(a), st(b))),
    ]


def scopes():
    return [Stmt(f"scope {v}", f"targetScope = '{v}'", [], scope=v, kind="scope")
            for v in ("resourceGroup", "subscription", "managementGroup", "tenant")]


def metadata(n):
    m = I(n + "m")
    return [
        Stmt("metadata", ["metadata ", m, " = '", S(n), "'"], lambda: [("metadata", st(m), {"value": st(S(n))})]),
        Stmt("metadata interpolated", ["metadata ", m, " = '", SI(n), "'"],
             lambda: [("metadata", st(m), {"value": st(SI(n))})], kind="metadata"),
        Stmt("metadata empty", ["metadata ", m, " = ''"], lambda: [("metadata", st(m), {"value": ""})], kind="metadata"),
    ]


def params(n):
    p, d = I(n + "p"), E(n + "d")
    out = []
    for tn, ts, tw in types(n):
        for q in ("", "?"):
            out.append(Stmt(f"param {tn}{q}", ["param ", p, " ", *ts, q], lambda tw=tw: [X.param(st(p), tw())],
                            kind="param"))
            out.append(Stmt(f"param {tn}{q} with default", ["param ", p, " ", *ts, q, " = ", d],
                            lambda tw=tw: [X.param(st(p), tw(), d.val())], kind="param"))
    return out


def variables(n):
    v, e = I(n + "v"), E(n + "e")
    out = [Stmt("var", ["var ", v, " = ", e], lambda: [X.var(st(v), e.val())], kind="var")]
    for tn, ts, tw in types(n):
        for q in ("", "?"):
            out.append(Stmt(f"var {tn}{q}", ["var ", v, " ", *ts, q, " = ", e], lambda tw=tw: [X.var(st(v), e.val(), tw())],
                            kind="var"))
    x, s, b = I(n + "x"), E(n + "s"), E(n + "b")
    out.append(Stmt("var loop", ["var ", v, " = [for ", x, " in ", s, ": ", b, "]"],
                    lambda: [X.var(st(v), X.loop(X.arr(st(x), s.val()), b.val()))], kind="var"))
    return out


def outputs(n):
    o, e = I(n + "o"), E(n + "e")
    x, s, b = I(n + "x"), E(n + "s"), E(n + "b")
    out = []
    for tn, ts, tw in types(n):
        for q in ("", "?"):
            out.append(Stmt(f"output {tn}{q}", ["output ", o, " ", *ts, q, " = ", e],
                            lambda tw=tw: [X.output(st(o), e.val(), tw())], kind="output"))
            out.append(Stmt(f"output {tn}{q} loop", ["output ", o, " ", *ts, q, " = [for ", x, " in ", s, ": ", b, "]"],
                            lambda tw=tw: [X.output(st(o), X.loop(X.arr(st(x), s.val()), b.val()), tw())], kind="output"))
    return out


def bodies(n):
    """(name, source, value) of what a resource or module can be"""
    a, c, s, f = E(n + "ba"), E(n + "bc"), E(n + "bs"), E(n + "bf")
    x, i, k = I(n + "bx"), I(n + "bi"), I(n + "bk")
    objs = ["{\n  ", k, ": ", a, "\n}"]

    def val():
        return {st(k): a.val()}
    return [
        ("empty body", ["{}"], lambda: {}),
        ("body", objs, val),
        ("condition", ["if (", c, ") ", *objs], lambda: {"condition": c.val(), "config": val()}),
        ("condition with empty body", ["if (", c, ") {}"], lambda: {"condition": c.val(), "config": {}}),
        ("loop", ["[for ", x, " in ", s, ": ", *objs, "]"], lambda: X.loop(X.arr(st(x), s.val()), val())),
        ("indexed loop", ["[for (", x, ", ", i, ") in ", s, ": ", *objs, "]"],
         lambda: X.loop(X.arri(st(x), st(i), s.val()), val())),
        ("filtered loop", ["[for ", x, " in ", s, ": if(", f, ") ", *objs, "]"],
         lambda: X.loop(X.arr(st(x), s.val()), val(), f.val())),
        ("object loop", ["[for ", x, " in items (", s, "): ", *objs, "]"], lambda: X.loop(X.obj(st(x), s.val()), val())),
    ]


def IP(name):
    """an identifier without __, which is what joins the names of nested resources"""
    if "ip" not in _l:
        _l["ip"] = (ident_lang() - R.concat(R.SIGMA_STAR, R.word("__"), R.SIGMA_STAR)).minimize()
    return hole(name + "n", "I", _l["ip"], f"zq{name}", "id")


def resources(n, single=False):
    r = IP(n + "r") if single else I(n + "r")
    out = []
    for bn, bs, bw in bodies(n):
        for ex in (False, True):
            out.append(Stmt(f"resource {'existing ' if ex else ''}{bn}",
                            ["resource ", r, " '", TN(n), "@", VN(n), "'", " existing" if ex else "", " = ", *bs],
                            lambda bw=bw, ex=ex: [X.resource(st(r), st(TN(n)), st(VN(n)), bw(), ex)], kind="resource"))
    return out


def modules(n):
    m = I(n + "mo")
    return [Stmt(f"module {bn}", ["module ", m, " '", PATH(n), "' = ", *bs],
                 lambda bw=bw: [X.module(st(m), st(PATH(n)), bw())], kind="module") for bn, bs, bw in bodies(n)]


def custom_types(n):
    t, a, b = I(n + "t"), E(n + "a"), E(n + "b")
    return [Stmt("type", ["type ", t, " = ", a], lambda: [X.custom_type(st(t), a.val())], kind="type"),
            Stmt("type union", ["type ", t, " = '", S(n + "1"), "' | '", S(n + "2"), "'"],
                 lambda: [X.custom_type(st(t), st(S(n + "1"), " | ", S(n + "2")))], kind="type")]


def functions(n):
    f, e = I(n + "f"), E(n + "e")
    out = []
    for k in range(5):
        names = [I(f"{n}q{i}") for i in range(k)]
        tys = [types(f"{n}{i}")[(i + k) % 3] for i in range(k)]
        segs = []
        for i in range(k):
            segs += [", " if i else "", names[i], " ", *tys[i][1]]
        for tn, ts, tw in types(n):
            out.append(Stmt(f"func {k} arguments {tn}", ["func ", f, "(", *segs, ") ", *ts, " => ", e],
                            lambda names=names, tys=tys, tw=tw: [
                                X.func(st(f), {st(x): y[2]() for x, y in zip(names, tys)}, tw(), e.val())], kind="func"))
    return out


def extensions(n):
    x, a, k, v = I(n + "ex"), I(n + "al"), I(n + "k"), E(n + "v")
    out = []
    for w in (None, "empty", "config"):
        for al in (False, True):
            segs = ["extension ", x]
            if w:
                segs += [" with ", *(["{}"] if w == "empty" else ["{\n  ", k, ": ", v, "\n}"])]
            if al:
                segs += [" as ", a]

            def entries(w=w, al=al):
                d = {}
                if w:
                    d["config"] = {} if w == "empty" else {st(k): v.val()}
                if al:
                    d["alias"] = st(a)
                return [("extensions", st(x), d)]
            out.append(Stmt(f"extension{' with ' + w if w else ''}{' as' if al else ''}", segs, entries, kind="extension"))
    return out


def imports(n):
    out = [Stmt("import namespace", ["import '", S(n + "ns"), "'"], lambda: [("imports", st(S(n + "ns")), {})], kind="import")]
    path = S(n + "pa")
    for k in (1, 2, 3):
        for als in itertools.product((False, True), repeat=k):
            names = [I(f"{n}in{i}") for i in range(k)]
            alias = [I(f"{n}ia{i}") for i in range(k)]
            segs = ["import {"]
            for i in range(k):
                segs += [", " if i else "", names[i], *([" as ", alias[i]] if als[i] else [])]
            segs += ["} from '", path, "'"]

            def entries(names=names, alias=alias, als=als):
                return [("imports", st(x), {"file_path": st(path), **({"alias": st(y)} if z else {})})
                        for x, y, z in zip(names, alias, als)]
            out.append(Stmt("import " + ", ".join("named as" if z else "named" for z in als), segs, entries, kind="import"))
    a, m = I(n + "ia0"), I(n + "in0")
    out.append(Stmt("import wildcard", ["import * as ", a, " from '", path, "'"],
                    lambda: [("imports", "*", {"file_path": st(path), "alias": st(a)})], kind="import"))
    out.append(Stmt("import wildcard without alias", ["import * from '", path, "'"],
                    lambda: [("imports", "*", {"file_path": st(path)})], kind="import"))
    out.append(Stmt("import plain", ["import ", m, " from '", path, "'"],
                    lambda: [("imports", st(m), {"file_path": st(path)})], kind="import"))
    out.append(Stmt("import plain as", ["import ", m, " as ", a, " from '", path, "'"],
                    lambda: [("imports", st(m), {"file_path": st(path), "alias": st(a)})], kind="import"))
    return out


DECORATED = ("param", "var", "output", "resource", "module", "type", "func")


def every(n):
    return (scopes() + metadata(n) + params(n) + variables(n) + outputs(n) + resources(n) + modules(n) + custom_types(n)
            + functions(n) + extensions(n) + imports(n))


def one_each(n):
    """one typical statement of every kind"""
    return [metadata(n)[0], params(n)[1], variables(n)[0], outputs(n)[0], resources(n, True)[2], modules(n)[1], custom_types(n)[0],
            functions(n)[9], extensions(n)[5], imports(n)[1], scopes()[1]]


ENDINGS = {"line break": "\n", "end of file": "", "comment": " // zq 'c\n", "CRLF": "\r\n", "blank lines": "\n\n\n"}
