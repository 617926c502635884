from __future__ import annotations

from . import corpus as CO, dom, forms as X, judges as J, longs as LO, native, spec, statements as ST, tables as TB, world
from .checks import INTERP, SCAN, check
from .checks2 import child_templates
from .corpus import Res
from .dom import Hole, mk_int
from .runner import lex_case, run_case
from .spec import E, Case, GN, I, M, S, el, hole, st


# --------------------------------------------------------------------------- C13
class Mark:
    """start or end of the source text of an entry"""

    def __init__(self, key, end=False):
        self.key, self.end = key, end
        self.segs = (self,)


def flat(segs):
    out = []
    for s in segs if isinstance(segs, (list, tuple)) else [segs]:
        if isinstance(s, (list, tuple)):
            out += flat(s)
        elif isinstance(s, (str, Hole, Mark)):
            out.append(s)
        else:
            out += s.segs
    return out


def marked(segs):
    """segments without the marks, {key: [first line, last line]}"""
    out, lines = [], {}
    const, terms = 1, []
    for s in flat(segs):
        if isinstance(s, Mark):
            lines.setdefault(s.key, [None, None])[1 if s.end else 0] = mk_int(const, terms) if terms else const
            continue
        out.append(s)
        if isinstance(s, Hole):
            v = world.line_var(s)
            if v is not None:
                terms.append((v, 1))
            else:
                const += s.rep.count("\n")
        else:
            const += s.count("\n")
    return out, lines


def around(stmt, key):
    return [Mark(key), *stmt.segs, Mark(key, True)]


def lined(name, segs, entries, scope=None):
    """entries: [(key of the marks, section, name, attributes)]; scope: (value, key)"""
    plain, lines = marked(segs)

    def want():
        d = X.doc(*[(sec, n, {**a, "__start_line__": lines[k][0], "__end_line__": lines[k][1]}) for k, sec, n, a in entries()],
                  scope=scope[0] if scope else "resourceGroup")
        a, b = lines[scope[1]] if scope else (0, 0)
        d["globals"]["scope"].update({"__start_line__": a, "__end_line__": b})
        return d

    def run(case):
        a = spec.W.parse(case.text(), True)
        b = spec.W.parse(case.text(), False)
        return Modes(a, b)
    return Case(name, plain, want, lines=True, judge=judge_lines, run=run)


class Modes:
    def __init__(self, a, b):
        self.a, self.b = a, b


LINES = ("__start_line__", "__end_line__")


def without_lines(r):
    """the result without the line information of its entries"""
    if not isinstance(r, dict):
        return r
    out = {}
    for sec, es in r.items():
        out[sec] = {n: ({k: v for k, v in a.items() if k not in LINES} if isinstance(a, dict) else a) for n, a in es.items()} if isinstance(
            es, dict) else es
    return out


def judge_lines(case, p, o, want):
    if o.status != "ok":
        return
    a, b = o.value.a, o.value.b
    for d in spec.compare(a, want):
        if d.where.rsplit(".", 1)[-1] in LINES:
            yield f"{d.where}|{d.got[:120]}", repr(d), d.loc
    for d in spec.compare(without_lines(a), b):
        yield f"modes|{d.where}|{d.got[:120]}", "the result differs between the modes: " + repr(d), d.loc
    for sec, es in b.items() if isinstance(b, dict) else ():
        for n, at in es.items() if isinstance(es, dict) else ():
            for k in LINES:
                if isinstance(at, dict) and k in at:
                    yield f"off|{sec}.{k}", f"{sec} entry carries {k} although line numbers are disabled", J.loc_of(at, None)


def lined_file(name, stmts, sep="\n", head="", end="\n"):
    segs, entries, scope = [head], [], None
    for i, s in enumerate(stmts):
        k = f"s{i}"
        if i:
            segs.append(sep[(i - 1) % len(sep)] if isinstance(sep, list) else sep)
        segs += around(s, k)
        if s.scope:
            scope = (s.scope, k)
        entries.append((k, s))
    segs.append(end)
    return lined(name, segs, lambda: [(k, *e) for k, s in entries for e in s.entries()], scope)


LAYOUTS = {"break": "\n", "blank lines": "\n\n\n", "comment lines": "// zq\n// zq\n", "CRLF": "\r\n", "CRLF lines": "\r\n// zq\r\n\r\n",
           "block comment": " /* zq\n\nzq */\n", "hash": " # zq\n", "blanks": "  \n\t\n  ", "trailing comment": " // zq 'c\n",
           "mixed": "\n/* zq */ // zq\n\n  # zq\n// zq\n"}


def marked_res(r, top=True, ind="", g=None, key="r"):
    """the segments of a resource with the marks of all the resources in it; g: gap after children"""
    out = [Mark(key)]
    segs = r.segs(top, ind)
    if not r.children:
        return [*out, *segs, Mark(key, True)]
    body = list(segs)
    for j, c in enumerate(r.children):
        inner = list(c.segs(False, ind + "  "))
        n = len(inner)
        at = next(i for i in range(len(body)) if tuple(body[i:i + n]) == tuple(inner))
        # the indentation belongs to the gap
        m = marked_res(c, False, ind + "  ", g, f"{key}.{j}")
        first = m[1] if isinstance(m[1], str) else ""
        lead = first[: len(first) - len(first.lstrip())]
        if lead:
            m = [lead, m[0], first[len(lead):], *m[2:]]
        after = body[at + n:]
        if g is not None and after and isinstance(after[0], str) and after[0].startswith("\n"):
            after = [g, after[0][1:], *after[1:]]
        body = body[:at] + m + after
    return [*out, *body, Mark(key, True)]


def res_entries(r, key="r"):
    """keys of the entries in the order of Res.entries"""
    out = [key]
    for j, c in enumerate(r.children):
        out += res_entries(c, f"{key}.{j}")
    return out


def lined_res(name, r, g=None, head="", end="\n"):
    return lined(name, [head, *marked_res(r, g=g), end], lambda: [(k, *e) for k, e in zip(res_entries(r), r.entries())])


def inner_layouts(n):
    """statements with layout at every place inside of them that accepts it"""
    v, e, f, k, l, x = I(n + "v"), E(n + "e"), E(n + "f"), I(n + "k"), I(n + "l"), I(n + "x")
    out = []

    def var(nm, segs, want):
        out.append(ST.Stmt(f"var {nm}", ["var ", v, " = ", *segs], lambda: [X.var(st(v), want())], kind="var"))
    g = [GN(f"{n}g{i}") for i in range(6)]
    gs = {"any layout": g, **{m: [t] * 6 for m, t in LAYOUTS.items()}}
    for m, g in gs.items():
        var(f"array, {m}", ["[", g[0], e, g[1], f, g[2], "]"], lambda: [e.val(), f.val()])
        var(f"object, {m}", ["{", g[0], k, ": ", e, g[1], l, ": ", f, g[2], "}"], lambda: {st(k): e.val(), st(l): f.val()})
        var(f"nested object, {m}", ["{", g[0], k, ": {", g[1], l, ": [", g[2], f, g[3], "]", g[4], "}", g[5], "}"], lambda: {st(k): {st(l): [f.val()]}})
        var(f"call, {m}", ["zqf(", g[0], e, ",", g[1], f, g[2], ")"], lambda: TB.call("zqf", [e.val(), f.val()]))
        var(f"loop, {m}", ["[", g[0], "for ", x, " in ", e, ": ", f, g[1], "]"], lambda: X.loop(X.arr(st(x), e.val()), f.val()))
        var(f"empty array, {m}", ["[", g[0], "]"], lambda: [])
        var(f"empty object, {m}", ["{", g[0], "}"], lambda: {})
        p = I(n + "p")
        out.append(ST.Stmt(f"param with decorators, {m}", ["@secure()", g[0], "@description(", g[1], e, g[2], ")", g[3], "param ", p, " string"],
                           lambda: [X.param(st(p), "string", None, [{"type": "secure"}, {"type": "description", "argument": e.val()}])], kind="param"))
        r = I(n + "r")
        out.append(ST.Stmt(f"resource condition, {m}", ["resource ", r, " 'Zq.Ns/t@1' = ", g[0], "if (", e, ") {", g[1], k, ": ", f, g[2], "}"],
                           lambda: [X.resource(st(r), "Zq.Ns/t", "1", {"condition": e.val(), "config": {st(k): f.val()}})], kind="resource"))
        out.append(ST.Stmt(f"resource, {m}", ["@batchSize(1)", g[3], "resource ", r, " 'Zq.Ns/t@1' = {", g[0], k, ": ", f, g[1], "}"],
                           lambda: [X.resource(st(r), "Zq.Ns/t", "1", {st(k): f.val()}, False, [{"type": "batchSize", "argument": 1}])], kind="resource"))
        mo = I(n + "m")
        out.append(ST.Stmt(f"module, {m}", ["module ", mo, " './zq.bicep' = {", g[0], k, ": ", f, g[1], "}"],
                           lambda: [X.module(st(mo), "./zq.bicep", {st(k): f.val()})], kind="module"))
        ex = I(n + "x")
        out.append(ST.Stmt(f"extension, {m}", ["extension ", ex, " with {", g[0], k, ": ", f, g[1], "} as ", I(n + "al")],
                           lambda: [("extensions", st(ex), {"config": {st(k): f.val()}, "alias": st(I(n + "al"))})], kind="extension"))
        o = I(n + "o")
        out.append(ST.Stmt(f"output, {m}", ["@sys.description('zq')", g[0], "output ", o, " array = [", g[1], e, g[2], "]"],
                           lambda: [X.output(st(o), [e.val()], "array", [{"type": "description", "argument": "zq"}])], kind="output"))
        t = I(n + "t")
        out.append(ST.Stmt(f"type, {m}", ["@export()", g[0], "type ", t, " = {", g[1], k, ": ", e, g[2], "}"],
                           lambda: [X.custom_type(st(t), {st(k): e.val()}, [{"type": "export"}])], kind="type"))
        fu = I(n + "fu")
        out.append(ST.Stmt(f"func, {m}", ["@export()", g[0], "func ", fu, "(", k, " string) object => {", g[1], l, ": ", e, g[2], "}"],
                           lambda: [X.func(st(fu), {st(k): "string"}, "object", {st(l): e.val()}, [{"type": "export"}])], kind="func"))
    mm = M(n)
    var("multi-line literal", ["'''\n", mm, "'''"], lambda: st(mm))
    var("multi-line literals", ["zqf('''\n", mm, "''', '''\n", M(n + "b"), "''')"], lambda: TB.call("zqf", [st(mm), st(M(n + "b"))]))
    var("block comment inside", ["/* zq\nzq */ ", e], lambda: e.val())
    var("literal over lines", ["'a${zqf(\n  'x'\n)}b'"], lambda: st("a${zqf(\n  'x'\n)}b"))
    im, ia = I(n + "im"), I(n + "ia")
    out.append(ST.Stmt("import with comment lines", ["import {", im, ", /* zq\n\n */", ia, " as ", k, " /* zq\n*/} from 'zq.bicep'"],
                       lambda: [("imports", st(im), {"file_path": "zq.bicep"}), ("imports", st(ia), {"alias": st(k), "file_path": "zq.bicep"})], kind="import"))
    out.append(ST.Stmt("import path over lines", ["import {", im, "} from 'a${zqf(\n  'x'\n)}b'"],
                       lambda: [("imports", st(im), {"file_path": "a${zqf(\n  'x'\n)}b"})], kind="import"))
    # texts in quotes that go over several lines, at every place a text in quotes can stand
    ml = "a${zqf(\n  'x'\n)}b"
    r2, mo2 = I(n + "r"), I(n + "mo")
    out.append(ST.Stmt("metadata over lines", ["metadata ", im, f" = '{ml}'"], lambda: [("metadata", st(im), {"value": ml})], kind="metadata"))
    out.append(ST.Stmt("import namespace over lines", [f"import '{ml}'"], lambda: [("imports", ml, {})], kind="import"))
    out.append(ST.Stmt("import list over lines", ["import {", im, ", ", ia, " as ", k, "} from '", ml, "'"],
                       lambda: [("imports", st(im), {"file_path": ml}), ("imports", st(ia), {"alias": st(k), "file_path": ml})], kind="import"))
    out.append(ST.Stmt("import wildcard over lines", ["import * as ", k, f" from '{ml}'"],
                       lambda: [("imports", "*", {"alias": st(k), "file_path": ml})], kind="import"))
    for exi in (False, True):
        out.append(ST.Stmt(f"resource type over lines{', existing' if exi else ''}",
                           ["resource ", r2, f" 'Zq.Ns/{ml}@1'", " existing" if exi else "", " = { ", k, ": ", f, " }"],
                           lambda exi=exi: [X.resource(st(r2), f"Zq.Ns/{ml}", "1", {st(k): f.val()}, exi)], kind="resource"))
    out.append(ST.Stmt("module path over lines", ["module ", mo2, f" './{ml}' = ", "{ ", k, ": ", f, " }"],
                       lambda: [X.module(st(mo2), f"./{ml}", {st(k): f.val()})], kind="module"))
    out.append(ST.Stmt("type over lines", ["type ", im, f" = '{ml}' | '{ml}'"], lambda: [X.custom_type(st(im), f"{ml} | {ml}")], kind="type"))
    for d in ("description", "zqdeco"):
        out.append(ST.Stmt(f"@{d} over lines", [f"@{d}('{ml}')\n", "param ", im, " string = ", f],
                           lambda d=d: [X.param(st(im), "string", f.val(), [{"type": d, "argument": ml}])], kind="param"))
        out.append(ST.Stmt(f"@{d} with multi-line literal", [f"@{d}('''\n", mm, "''')\n", "func ", im, "(", k, " string) string => ", f],
                           lambda d=d: [X.func(st(im), {st(k): "string"}, "string", f.val(), [{"type": d, "argument": st(mm)}])], kind="func"))
    out.append(ST.Stmt("import namespace with comment lines", ["import /* zq\n */ 'zq'"], lambda: [("imports", "zq", {})], kind="import"))
    out.append(ST.Stmt("metadata with comment lines", ["metadata /* zq\n */", im, " = /* zq\n\n*/ 'zq'"], lambda: [("metadata", st(im), {"value": "zq"})], kind="metadata"))
    out.append(ST.Stmt("scope with comment lines", ["targetScope /* zq\n */ = /* zq\n\n*/ 'tenant'"], [], scope="tenant", kind="scope"))
    out.append(ST.Stmt("param with comment lines", ["param /* zq\n */", im, " /* zq\n */ string /* zq\n */[] /* zq\n*/ ?"],
                       lambda: [X.param(st(im), X.array_t("string"))], kind="param"))
    return out


@check("C13", "first and last line of every entry are those of its own source text, decorators included; 0 for the default scope; nothing of it "
       "with line numbers disabled",
       INTERP + SCAN + "Every statement, decorated and not, between any layout; layout tokens of any content and number of lines at every "
       "place inside of statements, comments between any tokens; nested resources followed by any layout; both modes on the same path.")
def c13(tier):
    out, lex = [], []
    g, h, m = GN("lg"), GN("lh"), M("lm")
    before = ST.Stmt("multi-line before", ["var ", I("lb"), " = '''\n", m, "'''"], lambda: [X.var(st(I("lb")), st(m))])
    after = ST.Stmt("var after", ["var ", I("la"), " = ", E("le")], lambda: [X.var(st(I("la")), E("le").val())])
    for s in ST.every("l"):
        out.append(lined_file(f"{s.name} between", [before, s, after], [g, h]))
        out.append(lined_file(f"{s.name} after layout", [s], head=g, end=h))
        out.append(lined_file(f"{s.name} at the end of the file", [s], end=""))
        if s.kind in ST.DECORATED:
            ds = ST.decorator_list("d")
            for dec in ([ds[4]], [ds[4], ds[8], ds[0]]):
                for nm, sep in (("any layout", h), ("same line", " "), ("comment lines", " // zq\n\n// zq\n")):
                    out.append(lined_file(f"{s.name}, {len(dec)} decorators, {nm}", [before, ST.with_decorators(s, dec, sep), after], [g, g]))
    for nm, lay in LAYOUTS.items():
        one = ST.one_each("o")
        out.append(lined_file(f"all kinds, {nm}", one, lay, end=lay))
        out.append(lined_file(f"all kinds reversed, {nm}", one[::-1], lay, head=lay.lstrip(" ") if lay.strip(" ")[0] != "#" else lay, end=""))
    for s in inner_layouts("n"):
        c = lined_file(f"{s.name}", [before, s, after], [g, h])
        out.append(c)
        if "any layout" in s.name or "multi-line" in s.name:
            lex.append(c)
    for n, r in child_templates("quick"):
        out.append(lined_res(n, r, None, g, h))
        out.append(lined_res(n + ", layout after children", r, GN("lr"), g, h))
    for nm, lay in LAYOUTS.items():
        for n, r in child_templates("quick")[:26]:
            out.append(lined_res(f"{n}, {nm} after children", r, lay, "// zq\n", ""))
    # nested resources whose type goes over several lines
    ml = "a${zqf(\n  'x'\n)}b"
    for ex in (False, True):
        for nm, pre, post in (("", "", ""), (" with condition", "if (zqc) ", ""), (" in a loop", "[for zqi in zqs: ", "]")):
            segs = [g, Mark("r"), "resource zra 'Zq.Ns/t@1' = {\n  ", Mark("c"), f"resource zrb '{ml}'{' existing' if ex else ''} = {pre}{{\n    zkb: ",
                    E("le"), "\n  }", post, Mark("c", True), h, "  zka: ", E("lf"), "\n}", Mark("r", True), "\n"]

            def entries(ex=ex, nm=nm):
                cfg = {"zkb": E("le").val()}
                dep = {"depends_on": [el("zra")]}
                if not nm:
                    cfg.update(dep)
                elif "condition" in nm:
                    cfg = {"condition": el("zqc"), "config": cfg, **dep}
                else:
                    cfg = {**X.loop(X.arr("zqi", el("zqs")), cfg), **dep}
                return [("r", *X.resource("zra", "Zq.Ns/t", "1", {"zka": E("lf").val()})),
                        ("c", *X.resource("zra__zrb", f"Zq.Ns/t/{ml}", "1", cfg, ex))]
            out.append(lined(f"child type over lines{nm}{', existing' if ex else ''}", segs, entries))
    # long files
    many = [f for k, f in LO.maker().items() if k != "resource with child"]
    for n in LO.counts(tier):
        rows = [many[i % len(many)](i) for i in range(n)]
        out.append(lined_file(f"{n} statements", rows, ["\n", "\n\n", "\n// zq\n"], end=""))
        lines = "".join(f"  zq{i}\n" for i in range(n))
        s = ST.Stmt("var", [f"var zqv = '''\n{lines}'''"], lambda lines=lines: [X.var("zqv", lines)])
        out.append(lined_file(f"literal of {n} lines", [before, s, after], [g, h]))
        out.append(lined_file(f"after {n} line breaks", [after], head="\n" * n, end=""))
    out.append(lined("empty file", [""], lambda: []))
    out.append(lined("only layout", [g, h], lambda: []))
    res = [run_case(c) for c in out]
    for c in lex + out[:40]:
        res.append(lex_case(c, ("G", "M")))
    return res


# --------------------------------------------------------------------------- C15
GIVEN = "/zq/dir/in.bicep"
UTF8 = {"utf-8", "utf8", "u8", "utf", "cp65001", "utf-8-sig"}


def supply(case, entry, source, opts, lines=False):
    """calls an entry point; source: which of the arguments are given"""
    import pathlib
    w = spec.W
    kw = {}
    if "text" in source:
        kw["text"] = case.text()
    if "file" in source:
        w.vfs = {GIVEN: case.text()}
        kw["file_path"] = pathlib.Path(GIVEN)
    if "missing" in source:
        w.vfs = {}
        kw["file_path"] = pathlib.Path("/zq/dir/missing.bicep")
    for k in ("text", "file_path"):
        if k + "=None" in source:
            kw[k] = None
    p = w.parser(**({"add_line_numbers": True} if lines else {}), **opts)
    return w.interp.call(native.attr(p, entry), [], kw)


def rejected(name, segs, entry, source, opts=None, lines=False, types=None):
    c = Case(f"{entry}({' and '.join(source) or 'nothing'}){', line numbers' if lines else ''}{', ' + str(opts) if opts else ''}: {name}", segs,
             lambda: spec.Reject(), judge=judge_reject, run=lambda case: supply(case, entry, source, opts or {}, lines))
    c.types = types
    return c


def judge_reject(case, p, o, want):
    if o.status == "ok":
        yield "accepted", f"must raise an error, but returns {spec.show(o.value)[:200]}", J.loc_of(o.value, None)
    elif case.types and not isinstance(o.exc, case.types):
        yield f"raises {type(o.exc).__name__}", f"must raise {' or '.join(t.__name__ for t in case.types)}, but raises {spec.explain(o.exc)}", o.loc


class Two:
    def __init__(self, a, b, reads, first):
        self.a, self.b, self.reads, self.first = a, b, reads, first


def both_ways(name, segs, entry, want=None, lines=False, opts=None):
    def run(case):
        a = supply(case, entry, ("text",), opts or {}, lines)
        spec.W.reads = []
        known, first = len(dom.CTX.path.word), a
        b = supply(case, entry, ("file",), opts or {}, lines)
        if len(dom.CTX.path.word) > known:          # reading fixed parts of the text: compare what both sources make of that text
            reads, a = spec.W.reads, supply(case, entry, ("text",), opts or {}, lines)
            spec.W.reads = reads
        return Two(a, b, [r for r in spec.W.reads if r[0] == GIVEN], first)
    return Case(f"{entry}{', line numbers' if lines else ''}{', ' + str(opts) if opts else ''}: {name}", segs, want, lines=lines, judge=judge_both, run=run)


def text_of(v):
    a = dom.as_astr(v)
    if a is None or not all(isinstance(s, str) for s in dom.segs_of(a)):
        return None
    return "".join(dom.segs_of(a))


def judge_both(case, p, o, want):
    if o.status == "raised":
        yield J.raised(o)
        return
    a, b = o.value.a, o.value.b
    for d in spec.compare(b, a):
        yield f"{d.where}|{d.got[:120]}", "the file gives another result than the text: " + repr(d), d.loc
    if want is not None:
        for d in spec.compare(o.value.first, want, "", False, case.ignore):
            yield f"text|{d.where}|{d.got[:120]}", repr(d), d.loc
    if not o.value.reads:
        yield "not read", "the given file is not read", None
    for path, enc, errors, loc in o.value.reads:
        if enc not in UTF8:
            yield f"encoding {enc}", f"the file is read as {enc or 'the encoding of the locale'}, not as UTF-8", loc
        if errors not in (None, "strict"):
            yield f"errors {errors}", f"text that is not UTF-8 is read with errors={errors!r} instead of being rejected", loc


def judge_tree(case, p, o, want):
    yield from judge_both(case, p, o, None)
    if o.status != "ok":
        return
    t = text_of(o.value.a)
    if t is None:
        yield "no text", f"the tree is {spec.show(o.value.a)[:120]}", None
        return
    for w in want or ():
        if w not in t:
            yield f"missing {w}", f"the tree lacks {w!r}", None


def syntax_errors():
    """(name, text): texts no Bicep file may contain; every statement that lacks one of its tokens, and stray text"""
    out = []
    stmts = {
        "targetScope": ["targetScope", "=", "'tenant'"], "metadata": ["metadata", "zqm", "=", "'zq'"],
        "param": ["param", "zqp", "string"], "param with default": ["param", "zqp", "string", "=", "1"],
        "var": ["var", "zqv", "=", "1"], "output": ["output", "zqo", "string", "=", "'zq'"],
        "resource": ["resource", "zqr", "'a/b@1'", "=", "{", "}"], "existing": ["resource", "zqr", "'a/b@1'", "existing", "=", "{", "}"],
        "module": ["module", "zqm", "'./zq.bicep'", "=", "{", "}"], "type": ["type", "zqt", "=", "string"],
        "func": ["func", "zqf", "(", "zqa", "string", ")", "string", "=>", "zqa"], "extension": ["extension", "zqx"],
        "extension with": ["extension", "zqx", "with", "{", "}"], "import": ["import", "{", "zqi", "}", "from", "'zq.bicep'"],
        "wildcard": ["import", "*", "as", "zqi", "from", "'zq.bicep'"],
        "loop": ["var", "zqv", "=", "[", "for", "zqx", "in", "zqs", ":", "zqx", "]"],
        "condition": ["resource", "zqr", "'a/b@1'", "=", "if", "(", "zqc", ")", "{", "}"],
        "decorated": ["@", "secure", "(", ")", "\n", "param", "zqp", "string"],
        "array": ["var", "zqv", "=", "[", "1", ",", "2", "]"], "object": ["var", "zqv", "=", "{", "zqk", ":", "1", "}"],
        "call": ["var", "zqv", "=", "zqf", "(", "1", ",", "2", ")"], "index": ["var", "zqv", "=", "zqa", "[", "0", "]"],
        "conditional": ["var", "zqv", "=", "zqa", "?", "zqb", ":", "zqc"], "sum": ["var", "zqv", "=", "zqa", "+", "zqb"],
        "lambda": ["var", "zqv", "=", "map", "(", "zqa", ",", "zqi", "=>", "zqi", ")"], "child": [
            "resource", "zqr", "'a/b@1'", "=", "{", "\n", "resource", "zqc", "'c'", "=", "{", "}", "\n", "}"],
    }
    for n, ts in stmts.items():
        for i in range(len(ts)):
            out.append((f"{n} without {ts[i]!r} ({i})", " ".join(ts[:i] + ts[i + 1:]) + "\n"))
            if i:
                out.append((f"{n} cut before {ts[i]!r} ({i})", " ".join(ts[:i]) + "\n"))
            for g in ("%", ";", "^", "~", '"', "`", "\\", "$", "&", "'", "}", "]", ")"):
                if g in (";", "}", ")", "`") or i % 3 == 0:
                    out.append((f"{n} with {g} before {ts[i]!r} ({i})", " ".join([*ts[:i], g, *ts[i:]]) + "\n"))
    for g in ("%", ";", "^", "~", '"', "`", "\\", "$", "&", "'", "}", "]", ")", "{", "[", "(", "=", "==", "1", "zq", "'zq'", "'''zq'''", "zqf()", "@", "/*", "é", "\x00",
              "for", "if", "existing", "true", "null", "with", "as", "from", "in"):
        for pre, post in (("", ""), ("var zqa = 1\n", ""), ("", "var zqb = 1\n"), ("var zqa = 1\n", "var zqb = 1\n")):
            out.append((f"stray {g!r} {'after' if pre else ''} {'before' if post else ''}", f"{pre}{g}\n{post}"))
    return [(n, t) for n, t in out if n not in STILL_FINE]


# these give another correct text, or one the parser is lenient about
STILL_FINE = {
    "array without ',' (5)", "call cut before '(' (4)", "child without '\\n' (12)", "child without '\\n' (5)", "conditional cut before '?' (4)",
    "decorated without '\\n' (4)", "existing without 'existing' (3)", "extension with cut before 'with' (2)", "index cut before '[' (4)",
    "index without 'zqa' (3)", "lambda cut before '(' (4)", "param with default cut before '=' (3)", "sum cut before '+' (4)",
}


@check("C15", "exactly one source, read as UTF-8; unbalanced triple quotes, syntax errors and unknown scopes raise; text and file give the same result",
       INTERP + "Both entry points with every combination of arguments and options; texts with up to 13 triple quotes in literals and comments; "
       "statements lacking a token or with stray text; every scope text that is none of the four; documents of every kind supplied both ways.")
def c15(tier):
    out = []
    optset = [{}, {"cache": False}] + ([{"cache": True}] if tier == "thorough" else [])
    full = ST.file_case("all kinds", [*ST.one_each("f")])
    texts = [("empty file", [""]), ("one variable", ["var zqv = 1\n"]), ("all kinds", full.segs), ("unknown scope", ["targetScope = 'zq'\n"])]
    for entry in ("parse", "create_tree"):
        for n, segs in texts:
            if entry == "create_tree" and any(isinstance(s, Hole) for s in segs):
                continue
            for opts in optset:
                for lines in (False, True):
                    out.append(rejected(n, segs, entry, ("text", "file"), opts, lines))
                    out.append(rejected(n, segs, entry, ("text", "missing"), opts, lines))
        for source in ((), ("text=None",), ("file_path=None",), ("text=None", "file_path=None")):
            out.append(rejected("no source", [""], entry, source))
        out.append(rejected("missing file", [""], entry, ("missing",)))
        # triple quotes
        q = "'''"
        for k in range(1, 14):
            for n, t in (("comment", "var zqa = 1\n// " + f" {q}" * k + "\n"), ("block comment", "/*" + f" {q}" * k + " */\nvar zqa = 1\n"),
                         ("hash comment", "var zqa = 1 #" + f" {q}" * k + "\n"), ("literals and comment", f"var zqa = {q}zq{q}\n" + f"// {q} zq\n" * k),
                         ("own lines", "".join(f"// {q}\nvar zqa{i} = 1\n" for i in range(k)))):
                for source in (("text",), ("file",)):
                    for lines in (False, True):
                        if k % 2:
                            out.append(rejected(f"{k} triple quotes, {n}", [t], entry, source, {}, lines))
            if k % 2 == 0:
                for n, t in (("comment", "var zqa = 1\n// " + f" {q}" * k + "\n"), ("hash comment", "var zqa = 1 #" + f" {q}" * k + "\n")):
                    out.append(both_ways(f"{k} triple quotes, {n}", [t], entry, (lambda: X.doc(X.var("zqa", 1))) if entry == "parse" else None))
        for k in LO.counts(tier, 14):
            t = "var zqa = 1\n// " + f" {q}" * k + "\n"
            out.append(rejected(f"{k} triple quotes", [t], entry, ("text",)) if k % 2 else
                       both_ways(f"{k} triple quotes", [t], entry, (lambda: X.doc(X.var("zqa", 1))) if entry == "parse" else None))
        for n, t in syntax_errors():
            for source in (("text",), ("file",)) if tier == "thorough" or n.startswith("stray") else (("text",),):
                out.append(rejected(n, [t], entry, source))
    # scopes
    bad = hole("sc", "SC", (spec.L(spec.PLAIN) - spec.R.words("resourceGroup", "subscription", "managementGroup", "tenant")).minimize(), "zqscope")
    for n, segs in (("any other text", [bad]), *[(repr(t), [t]) for t in ("", "ResourceGroup", "resourcegroup", "tenants", "tenant ", " tenant", "managementgroup",
                                                                         "resourceGroup,tenant", "none", "Tenant", "${zq}", "tenant\\'")]):
        for pre, post in (([], []), (["var zqa = 1\n"], []), ([], ["var zqa = 1\n"])):
            for source in (("text",), ("file",)):
                for lines in (False, True):
                    out.append(rejected(f"scope {n}", [*pre, "targetScope = '", *segs, "'\n", *post], "parse", source, {}, lines))
    for v in ("resourceGroup", "subscription", "managementGroup", "tenant"):
        out.append(both_ways(f"scope {v}", [f"targetScope = '{v}'\n"], "parse", lambda v=v: X.doc(scope=v)))
    # both ways
    docs = [ST.file_case(s.name, [s]) for s in ST.every("w")] + [full, Case("empty file", [""], X.doc), Case("blank file", ["\n\n"], X.doc), Case("comment only", ["// zq\n"], X.doc)]
    docs += [ST.file_case(f"no line break, {s.name}", [s], end="") for s in ST.one_each("w")]
    docs += [ST.file_case(f"decorated {s.name}", [ST.with_decorators(s, ST.decorator_list("e")[:3])]) for s in ST.one_each("c") if s.kind in ST.DECORATED]
    docs.append(ST.file_case("text", [ST.Stmt("var", ["var ", I("wv"), " = '", S("ws"), "'"], lambda: [X.var(st(I("wv")), st(S("ws")))])]))
    docs.append(ST.file_case("lines of text", [ST.Stmt("var", ["var ", I("wv"), " = '''\n", M("wm"), "'''"], lambda: [X.var(st(I("wv")), st(M("wm")))])]))
    for c in docs:
        for lines in (False, True):
            out.append(both_ways(c.name, c.segs, "parse", None if lines else c.want, lines))
    for n, t, words in (("variable", "var zqname = 'zq text'\n", ["zqname", "zq text"]), ("empty file", "", []), ("blank", "\n", []),
                        ("all kinds", "param zqp string\nvar zqv = [zqa, 'ü']\noutput zqo int = 1\nresource zqr 'a/b@1' = {\n  zqk: zqf(1)\n}\n",
                         ["zqp", "zqv", "zqa", "ü", "zqo", "zqr", "zqk", "zqf", "a/b@1"]),
                        ("children", "resource zqr 'a/b@1' = {\n  resource zqc 'c' = {\n    zqk: 1\n  }\n}\n", ["zqr", "zqc", "zqk"])):
        c = both_ways(n, [t], "create_tree", lambda words=words: words)
        c.judge = judge_tree
        out.append(c)
    return [run_case(c) for c in out]
