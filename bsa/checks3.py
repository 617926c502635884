from __future__ import annotations

import contextvars
import itertools

from .interp import is_engine_error
from .dom import Engine, Sym
from . import corpus as CO, dom, native, forms as X, judges as J, lexob, longs as LO, relang as R, spec, statements as ST, tables as TB
from .checks import INTERP, SCAN, check
from .checks2 import child_templates, siblings, whole_corpus
from .corpus import Res, matrix
from .runner import Task, lex_case, run_case
from .spec import E, Case, F, Frag, I, M, M1, N, S, SI, el, hole, num, st


def judged(cases, judge):
    return [run_case(J.only(c, judge)) for c in cases]


# --------------------------------------------------------------------------- C01
def marker_cases():
    """places where a nested resource, a condition or a loop could leave bookkeeping behind"""
    out = []
    for n, r in siblings():
        out.append(ST.file_case(n, [r.stmt()]))
    r, c, e = ST.IP("mr"), ST.IP("mc"), E("me")
    head = ["resource ", r, " '", ST.TN("m"), "@", ST.VN("m"), "' = "]
    for name, pre, post in (("in a nested object", "{\n  zk: {\n    ", "\n  }\n}"), ("in an object in an array", "{\n  zk: [\n    {\n      ", "\n    }\n  ]\n}"),
                            ("in an object two levels down", "{\n  zk: {\n    zl: {\n      ", "\n    }\n  }\n}")):
        out.append(Case(f"child resource {name}", [*head, pre, "resource ", c, " 'zt' = {\n zq: ", e, "\n}", post, "\n"],
                        lambda: None, judge=None))
    return out


@check("C01", "nothing but dicts with string keys, lists, strings, identifier markers, integers, booleans and None is reachable from a "
       "result, and no entry that was not written",
       INTERP + "Every construct in every position of every other construct, all statements, decorators, built-ins, data types and "
       "nestings of child resources, with and without line numbers; every reachable value is classified.")
def c01(tier):
    cases = whole_corpus(tier) + marker_cases()
    out = judged(cases, J.judge_plain)
    for c in CO.statements() + CO.decorators() + [ST.file_case(n, [r.stmt()]) for n, r in child_templates("quick")]:
        out.append(run_case(J.only(c, J.judge_plain, c.name + " with line numbers", lines=True, want=lambda: None)))
    out += judged(LO.everything(tier), J.judge_plain)
    return out


# --------------------------------------------------------------------------- C02
def kind_atoms(n):
    fs = [f for f in X.atoms(n) if "atom" in f.tags]
    return fs + [
        Frag("1", 1, "one"), Frag("'true'", "true", "quoted true"), Frag("'null'", "null", "quoted null"), Frag("'7'", "7", "quoted integer"),
        Frag("'''zqb'''", "zqb", "multi-line word"), Frag("'''7'''", "7", "multi-line integer"), Frag("'''true'''", "true", "multi-line true"),
        Frag("'zqb\\'c'", "zqb\\'c", "quoted with escape"), Frag("'${zqb}'", "${zqb}", "interpolated identifier"),
        Frag("True", lambda: el("True"), "identifier True"), Frag("nullx", lambda: el("nullx"), "identifier nullx"),
        Frag("_", lambda: el("_"), "identifier _"), Frag("''' '''", " ", "multi-line blank"), Frag("' '", " ", "quoted blank"),
    ]


@check("C02", "a bare identifier is recorded with the published identifier type, every literal without it; integers, booleans and null "
       "as such",
       INTERP + SCAN + "All identifier and literal forms in every expression position, as every argument of every built-in, of unknown "
       "and namespaced functions, of every decorator, and as operands in both places.")
def c02(tier):
    at = kind_atoms("z")
    pos = X.positions()
    out = judged(matrix(pos, at, classes=True), J.judge_kinds)
    # all arguments of all functions
    v = CO.variable_position()
    some = [at[i] for i in (0, 1, 5, 7)] if tier != "thorough" else at
    for name, (space, _, arities) in TB.FUNCTIONS.items():
        for k in arities:
            for pre in ("",) if tier != "thorough" else ("", space + "."):
                for a in range(k):
                    for f in some:
                        es = [E(f"g{i}") for i in range(k)]
                        args = [f if i == a else es[i] for i in range(k)]
                        fr = CO.call_frag(pre + name, name, [x.segs if isinstance(x, Frag) else x for x in args], [x.val for x in args])
                        out.append(run_case(Case(f"{fr.name} with {f.name} as argument {a + 1}", v.segs(fr), v.want(fr), judge=J.judge_kinds)))
    # bare identifiers that accessors, functions and statements record
    for f in X.accessors("z"):
        for p in pos[:6]:
            out.append(run_case(J.only(Case(f"{p.name} / {f.name}", p.segs(f), p.want(f)), J.judge_kinds)))
    # neighbours of all kinds in one array, object and call
    for perm in (at, at[::-1], at[5:] + at[:5]):
        out.append(run_case(Case("array of all forms", v.segs(Frag(["[\n", *[y for x in perm for y in (*x.segs, "\n")], "]"], None)),
                                 lambda perm=perm: X.doc(X.var(st(I("v")), [x.val() for x in perm])), judge=J.judge_kinds)))
        out.append(run_case(Case("inline array of all forms", v.segs(Frag(["[", *[y for i, x in enumerate(perm) for y in (", " if i else "", *x.segs)], "]"], None)),
                                 lambda perm=perm: X.doc(X.var(st(I("v")), [x.val() for x in perm])), judge=J.judge_kinds)))
        out.append(run_case(Case("call with all forms", v.segs(Frag(["zqf(", *[y for i, x in enumerate(perm) for y in (", " if i else "", *x.segs)], ")"], None)),
                                 lambda perm=perm: X.doc(X.var(st(I("v")), TB.call("zqf", [x.val() for x in perm]))), judge=J.judge_kinds)))
        out.append(run_case(Case("object of all forms", v.segs(Frag(["{\n", *[y for i, x in enumerate(perm) for y in (f"zk{i}: ", *x.segs, "\n")], "}"], None)),
                                 lambda perm=perm: X.doc(X.var(st(I("v")), {f"zk{i}": x.val() for i, x in enumerate(perm)})), judge=J.judge_kinds)))
    for c in matrix(pos, [f for f in at if f.name in ("identifier", "quoted", "interpolated", "multi-line", "integer")]):
        out.append(lex_case(c, ("S", "SI", "M", "M1", "N")))
    out += judged(LO.containers(tier) + LO.nestings(tier) + LO.literals_in_rows(tier), J.judge_kinds)
    return out


# --------------------------------------------------------------------------- C03
def text_atoms(n):
    cr = "\r\n"
    a = S(n)
    return [
        Frag(["'", S(n), "'"], lambda: st(S(n)), "quoted"),
        Frag("''", "", "quoted empty"),
        Frag(["'", SI(n), "'"], lambda: st(SI(n)), "interpolated"),
        Frag(["'", S(n), "${", I(n + "i"), "}", S(n + "b"), "'"], lambda: st(S(n), "${", I(n + "i"), "}", S(n + "b")), "one interpolation"),
        Frag(["'${", I(n + "i"), "}${", I(n + "j"), "}'"], lambda: st("${", I(n + "i"), "}${", I(n + "j"), "}"), "two interpolations"),
        Frag(["'''\n", M(n), "'''"], lambda: st(M(n)), "multi-line"),
        Frag(["'''", cr, M(n), "'''"], lambda: st(M(n)), "multi-line after CRLF"),
        Frag(["'''", M1(n), "'''"], lambda: st(M1(n)), "multi-line on the same line"),
        Frag(["'''\n\n", M(n), "'''"], lambda: st("\n", M(n)), "multi-line after two line breaks"),
        Frag(["'''", cr, cr, M(n), "'''"], lambda: st(cr, M(n)), "multi-line after two CRLF"),
        Frag(["'''\n'", "'zq", M(n), "'''"], lambda: st("''zq", M(n)), "multi-line starting with quotes"),
        Frag(["''' \n", M(n), "'''"], lambda: st(" \n", M(n)), "multi-line after a blank"),
        Frag(["'''\n  ", M(n), "\n  '''"], lambda: st("  ", M(n), "\n  "), "multi-line indented"),
        Frag("''''''", "", "multi-line empty"),
        Frag("'''\n'''", "", "multi-line of one line break"),
        Frag("'''\r\n'''", "", "multi-line of one CRLF"),
        Frag("'''\n\n'''", "\n", "multi-line of two line breaks"),
        Frag("'''\r'''", "\r", "multi-line of one CR"),
        Frag("''' '''", " ", "multi-line blank"),
        Frag("''''zq '''", "'zq ", "multi-line starting with a quote"),
        Frag("'''\n\tzq\t\n'''", "\tzq\t\n", "multi-line tabs"),
        Frag("'''${zq} \\n // /* # '''", "${zq} \\n // /* # ", "multi-line that looks like code"),
        Frag("'''zq\n// zq\n'''", "zq\n// zq\n", "multi-line with a comment marker"),
        *[Frag(f"'{t}'", t, f"text {t!r}") for t in TEXTS],
    ]


TEXTS = ["\\'", "\\'zq\\'", "zq\\\\", "\\\\", "\\\\\\'", " zq ", "\t", "// zq", "/* zq */", "# zq", "zq // zq", "\\n", "\\u{1F600}", "\u00e4\u00f6\u4e2d\U0001f600",
         "${zq}", "a${zq}", "${zq}b", "a${zq}b${zr}c", "\\${zq}", "$", "$$", "$zq", "{zq}", "}", "${zq}'s\\'".replace("'s", "s"), "@", "zq@zr", "=>", "true", "null", "0", "-1",
         "[zq]", "(zq)", "zq: zr", "zq.zr", "zq::zr", '"', '"zq"', "`zq`", "%20", "${zqf('zr')}", "${zq ? 'a' : 'b'}", "${'zq'}", "${zq['a']}", "${zqf('a', 'b')}-${zqg('c')}",
         "\u2028", "\u0085", "\x0b", "\x0c", "\x1c", "\ufeff", "\u200b", "\u00a0zq\u00a0", "\u2003", "\x00"]


def text_places(n):
    """places other than expressions whose text is a literal's"""
    s, si, m = S(n), SI(n), I(n + "m")
    e, r = E(n + "e"), ST.IP(n + "r")
    k = S(n + "k")
    nonempty = hole(n + "ne", "S", (spec.L(spec.PLAIN) - R.word("")).minimize(), "s t")
    out = []
    doc = X.doc
    out.append(("metadata", Case("metadata", ["metadata ", m, " = '", s, "'\n"], lambda: doc(("metadata", st(m), {"value": st(s)})))))
    out.append(("metadata", Case("metadata interpolated", ["metadata ", m, " = '", si, "'\n"], lambda: doc(("metadata", st(m), {"value": st(si)})))))
    for nm, segs, vals in (("quoted", ["'", s, "'"], lambda: st(s)), ("interpolated", ["'", si, "'"], lambda: st(si)),
                           ("two", ["'", s, "' | '", k, "'"], lambda: st(s, " | ", k))):
        out.append(("type", Case(f"type {nm}", ["type ", m, " = ", *segs, "\n"], lambda vals=vals: doc(X.custom_type(st(m), vals())))))
    out.append(("import", Case("import path", ["import {", m, "} from '", s, "'\n"], lambda: doc(("imports", st(m), {"file_path": st(s)})))))
    out.append(("import", Case("import alias path", ["import {", m, " as ", I(n + "a"), "} from '", s, "'\n"],
                               lambda: doc(("imports", st(m), {"alias": st(I(n + "a")), "file_path": st(s)})))))
    p = ST.PATH(n)
    out.append(("module", Case("module path", ["module ", m, " '", p, "' = {}\n"], lambda: doc(X.module(st(m), st(p), {})))))
    t, v = ST.TN(n), ST.VN(n)
    out.append(("resource", Case("resource type", ["resource ", r, " '", t, "@", v, "' = {}\n"], lambda: doc(X.resource(st(r), st(t), st(v), {})))))
    # keys are recorded the way they are written
    q = spec.st("'", s, "'")
    qi = spec.st("'", si, "'")
    for nm, key, want in (("quoted key", ["'", s, "'"], lambda: q), ("interpolated key", ["'", si, "'"], lambda: qi)):
        out.append(("key", Case(nm, ["var ", m, " = {\n  ", *key, ": ", e, "\n}\n"], lambda want=want: doc(X.var(st(m), {want(): e.val()})))))
        out.append(("key", Case(nm + " inline", ["var ", m, " = { ", *key, ": ", e, " }\n"], lambda want=want: doc(X.var(st(m), {want(): e.val()})))))
        out.append(("key", Case(nm + " in a resource", ["resource ", r, " 'Zq.Ns/t@1' = {\n  ", *key, ": ", e, "\n}\n"],
                                lambda want=want: doc(X.resource(st(r), "Zq.Ns/t", "1", {want(): e.val()})))))
    for x in TEXTS:
        if "'" in x.replace("\\'", "") or not x:
            continue
        out.append(("concrete", Case(f"key {x!r}", ["var ", m, " = {\n  '", x, "': 1\n}\n"], lambda x=x: doc(X.var(st(m), {f"'{x}'": 1})))))
        if "$" not in x or x in ("$", "$$", "$zq"):
            out.append(("concrete", Case(f"metadata {x!r}", ["metadata ", m, " = '", x, "'\n"], lambda x=x: doc(("metadata", st(m), {"value": x})))))
    c = ST.IP(n + "c")
    for x in TEXTS:
        out.append(("concrete", Case(f"child type {x!r}", ["resource ", r, " 'Zq.Ns/t@1' = {\n  resource ", c, " 'zq", x, "' = {}\n}\n"],
                                     lambda x=x: doc(X.resource(st(r), "Zq.Ns/t", "1", {}),
                                                     X.resource(st(r, "__", c), "Zq.Ns/t/zq" + x, "1", {"depends_on": [el(r)]})))))
        out.append(("concrete", Case(f"import path {x!r}", ["import {", m, "} from '", x, "'\n"],
                                     lambda x=x: doc(("imports", st(m), {"file_path": x})))))
        out.append(("concrete", Case(f"module path {x!r}", ["module ", m, " 'zq/", x, "' = {}\n"], lambda x=x: doc(X.module(st(m), "zq/" + x, {})))))
        if "@" not in x:
            out.append(("concrete", Case(f"resource type {x!r}", ["resource ", r, " 'zq", x, "@1' = {}\n"],
                                         lambda x=x: doc(X.resource(st(r), "zq" + x, "1", {})))))
            out.append(("concrete", Case(f"api version {x!r}", ["resource ", r, " 'zq/zr@1", x, "' = {}\n"],
                                         lambda x=x: doc(X.resource(st(r), "zq/zr", "1" + x, {})))))
    for nm, segs, vals in (("interpolated", ["zq", si], lambda: st("zq", si)), ("quoted", ["zq", s], lambda: st("zq", s))):
        out.append(("place", Case(f"child type {nm}", ["resource ", r, " 'Zq.Ns/t@1' = {\n  resource ", c, " '", *segs, "' = {}\n}\n"],
                                  lambda vals=vals: doc(X.resource(st(r), "Zq.Ns/t", "1", {}),
                                                        X.resource(st(r, "__", c), st("Zq.Ns/t/", *vals().segs), "1", {"depends_on": [el(r)]})))))
        out.append(("place", Case(f"import path {nm}", ["import {", m, "} from '", *segs, "'\n"], lambda vals=vals: doc(("imports", st(m), {"file_path": vals()})))))
    ct = Res(n).child_type()
    out.append(("resource", Case("child type", ["resource ", r, " 'Zq.Ns/t@1' = {\n  resource ", c, " '", ct, "' = {}\n}\n"],
                                 lambda: doc(X.resource(st(r), "Zq.Ns/t", "1", {}), X.resource(st(r, "__", c), st("Zq.Ns/t/", ct), "1", {"depends_on": [el(r)]})))))
    return out


@check("C03", "the recorded text of a literal is the source text between its delimiters, for every text",
       INTERP + SCAN + "Quoted, interpolated and multi-line literals with any content, in every expression position, as key, metadata, "
       "import path, type, module path and resource type; several literals next to each other; CR LF and LF after opening quotes; texts "
       "that look like code, comments or quotes. The scanner obligations decide that any content is one token.")
def c03(tier):
    out = []
    forms = text_atoms("z")
    pos = X.positions()
    core = [f for f in forms if not f.name.startswith("text ")]
    out += judged(matrix(pos, forms if tier == "thorough" else core), J.judge_text)
    v = CO.variable_position()
    pick = [p for p in pos if p.name in ("variable value", "middle line of array", "last of inline array", "object value", "only argument", "parameter default",
                                         "true value", "decorator description", "resource property", "type value")]
    out += judged(matrix(pick, forms), J.judge_text)
    for kind, c in text_places("z"):
        out.append(run_case(J.only(c, J.judge_text)))
        if kind != "concrete":
            out.append(lex_case(c))
    kinds = [f for f in core if f.name in ("quoted", "interpolated", "multi-line", "multi-line on the same line", "one interpolation")]
    for c in matrix(pos, kinds):
        out.append(lex_case(c))
    # two and three literals next to each other: no merging, no splitting
    other = text_atoms("y")
    for f, g in itertools.product(core if tier == "thorough" else core[:9] + core[13:15], [g for g in other if not g.name.startswith("text ")][:9]):
        for nm, segs, want in (
                ("array lines", ["[\n  ", f, "\n  ", g, "\n]"], lambda f=f, g=g: [f.val(), g.val()]),
                ("array inline", ["[", f, ", ", g, "]"], lambda f=f, g=g: [f.val(), g.val()]),
                ("comparison", [f, " == ", g], lambda f=f, g=g: TB.binary("==", f.val(), g.val())),
                ("conditional", ["zqc ? ", f, " : ", g], lambda f=f, g=g: TB.ternary(el("zqc"), f.val(), g.val())),
                ("object", ["{ zk: ", f, ", zl: ", g, " }"], lambda f=f, g=g: {"zk": f.val(), "zl": g.val()})):
            c = Case(f"{nm}: {f.name}, {g.name}", ["var ", I("v"), " = ", *spec.flat(segs), "\n"],
                     lambda want=want: X.doc(X.var(st(I("v")), want())), judge=J.judge_text)
            out.append(run_case(c))
            if nm in ("array inline", "conditional") and f in kinds:
                out.append(lex_case(c))
    out += judged(LO.literals_in_rows(tier) + LO.literal_unions(tier), J.judge_text)
    return out


# --------------------------------------------------------------------------- C23
@check("C23", "whatever the grammar accepts is converted; only the documented rejections may be raised",
       INTERP + "Every construct in every position, all statements, decorators, built-ins with permitted argument counts, data types, "
       "child resources; plus, over the grammar, every production has a conversion step for each of its shapes.")
def c23(tier):
    from . import grammar as G
    out = judged(whole_corpus(tier), J.judge_converts)
    out += G.tasks(J.judge_converts, tier)
    out += judged(LO.everything(tier), J.judge_converts)
    return out


# --------------------------------------------------------------------------- C17
@check("C17", "nothing but the given file and the grammar is read, and nothing is written, executed, connected or changed",
       INTERP + "Effects recorded while every construct, every way to supply the source and every option is interpreted; plus a scan of every "
       "call, import and attribute of the package for effectful operations.")
def c17(tier):
    out = judged(whole_corpus(tier) + LO.everything(tier), J.judge_effects)
    cases = [ST.file_case("all kinds", [*ST.one_each("f")]), *failing(), Case("empty file", [""], None)]
    names = I("en")
    for text in ("'./zq.bicep'", "loadTextContent('zq.txt')", "loadJsonContent('/etc/passwd')", "loadFileAsBase64('zq')", "loadYamlContent('zq')",
                 "'${loadTextContent(\\'zq\\')}'", "readEnvironmentVariable('HOME')", "utcNow()", "newGuid()", "'__import__(\\'os\\')'"):
        cases.append(Case(f"value {text}", ["var ", names, " = ", text, "\n"], None))
    for text in ("module zqm './zq.bicep' = {}\n", "module zqm '/etc/passwd' = {}\n", "import {zqi} from './zq.bicep'\n", "import {zqi as zqj} from 'zq.bicep'\n",
                 "extension zqe\n", "module zqm 'br:mcr.microsoft.com/a/b:1' = {}\n", "targetScope = 'tenant'\n"):
        cases.append(Case(f"file {text}", [text], None))
    for c in cases:
        for entry in ("parse", "create_tree"):
            for source in ("text", "file"):
                if entry == "create_tree" and any(isinstance(s, dom.Hole) for s in c.segs):
                    continue
                for cache in (None, True, False):
                    out.append(run_case(entry_case(c, entry, source, cache)))
    out.append(Task("scan of the sources", scan_sources))
    return out


GIVEN = "/zq/dir/in.bicep"


def entry_case(c, entry, source, cache):
    import pathlib

    def run(case):
        w = spec.W
        w.vfs = {GIVEN: case.text()}
        p = w.parser(**({} if cache is None else {"cache": cache}))
        m = native.attr(p, entry)
        kw = {"text": case.text()} if source == "text" else {"file_path": pathlib.Path(GIVEN)}
        return w.interp.call(m, [], kw)
    r = Case(f"{entry}({source}), cache={cache}: {c.name}", c.segs, None, judge=J.judge_effects, run=run)
    r.given = GIVEN if source == "file" else None
    r.cache = cache is not False
    return r


def scan_sources(st_):
    from . import effects
    w = spec.W
    allowed = set()
    src = Case("entry points", ["var zq = 1\n"], None)
    for entry in ("parse", "create_tree"):
        for source in ("text", "file"):
            c = entry_case(src, entry, source, None)
            w.load_all()
            for e in w.import_effects:
                if e.kind in ("read", "stat") and J.own_data(w, e.path) and e.loc:
                    allowed.add((str(e.loc[0]), e.loc[1]))
            dom.CTX.path = dom.Path()
            spec.attempt(lambda: c.run(c))
            for e in w.effects:
                if e.kind in ("read", "stat") and (e.path == GIVEN or J.own_data(w, e.path)) and e.loc:
                    allowed.add((str(e.loc[0]), e.loc[1]))
    allowed |= w.grammar_reads
    out = []
    for e in w.import_effects:
        if not (e.kind in ("read", "stat") and J.own_data(w, e.path)) and e.kind != "cache":
            out.append(spec.Finding(src, f"import|{e.what}", f"importing the library {e.what}", e.loc))
    for what, loc in effects.scan(allowed, st_):
        rel = str(loc[0]).replace(str(w.repo) + "/", "")
        out.append(spec.Finding(src, f"scan|{rel}|{spec.funcname(*loc)}|{what}", f"{what} is reachable code of the library", loc))
    return out


# --------------------------------------------------------------------------- C16
def poison(v, how, seen=None):
    """changes every container of a returned result"""
    seen = set() if seen is None else seen
    if isinstance(v, Sym):
        return
    if isinstance(v, (dict, list)) and id(v) not in seen:
        seen.add(id(v))
        for x in list(v.values() if isinstance(v, dict) else v):
            poison(x, how, seen)
        if how == "clear":
            v.clear()
        elif isinstance(v, dict):
            v["poisoned"] = "poison"
        else:
            v.append("poison")


def copied(v):
    if isinstance(v, dict):
        return {k: copied(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(copied(x) for x in v)
    return v


def all_containers(v, out):
    if isinstance(v, (dict, list)) and id(v) not in out:
        out[id(v)] = v
        for x in v.values() if isinstance(v, dict) else v:
            all_containers(x, out)
    return out


class Shared(Exception):
    pass


def history(first, then, same=True, lines=(False, False), how="add", again=False):
    """parses some texts, changes their results, and parses another one"""
    firsts = first if isinstance(first, list) else [first]

    def run(case):
        w = spec.W
        p1 = w.parser(add_line_numbers=lines[0])
        olds = []
        for f in firsts:
            try:
                r1 = w.parse(f.text(), parser=p1)
            except Engine:
                raise
            except Exception as e:
                if is_engine_error(e):
                    raise
                continue
            kept = copied(r1)
            mine = all_containers(r1, {})
            for o in olds:
                if o.keys() & mine.keys():
                    raise Shared("an earlier result")
            olds.append(mine)
            poison(r1, how)
        p2 = p1 if same else w.parser(add_line_numbers=lines[1])
        r2 = w.parse(then.text(), parser=p2)
        mine = all_containers(r2, {})
        for o in olds:
            both = o.keys() & mine.keys()
            if both:
                v = mine[both.pop()]
                return Both(r2, v)
        if again:
            r3 = w.parse(firsts[-1].text(), parser=p1)
            return Again(r2, kept, r3)
        return r2
    c = Case(f"{' ; '.join(f.name for f in firsts)} -> {then.name} ({'same' if same else 'other'} parser, {how}"
             f"{', line numbers ' + str(lines) if any(lines) else ''})", then.segs, then.want, judge=judge_history, run=run)
    return c


class Both:
    def __init__(self, r, v):
        self.r, self.v = r, v


class Again:
    def __init__(self, r, kept, r3):
        self.r, self.kept, self.r3 = r, kept, r3


def judge_history(case, p, o, want):
    if o.status == "ok" and isinstance(o.value, Both):
        v = o.value.v
        yield "shared", f"two results share {spec.show(v)[:200]}", spec._site(v, None)
        return
    if o.status == "ok" and isinstance(o.value, Again):
        for d in spec.compare(o.value.r3, o.value.kept):
            yield f"again {d.where}|{d.got[:120]}", "parsed again: " + repr(d), d.loc
        o = spec.Outcome("ok", o.value.r)
        if want is None:
            return
    if want is None and o.status == "raised":
        yield J.raised(o)
        return
    if want is not None:
        yield from spec.default_judge(case, p, o, want)
        if not isinstance(want, spec.Reject):
            yield from J.judge_alias(case, p, o, want)


def settled(f):
    """the outcome of a parse; what stops the analysis is passed on"""
    try:
        return spec.Outcome("ok", f())
    except Engine:
        raise
    except Exception as e:
        if is_engine_error(e) or isinstance(e, RecursionError) and not getattr(e, "of_program", False):
            raise
        o = spec.program_exc(e)
        return spec.Outcome("raised", exc=o, loc=getattr(o, "_bsa_loc", None) or spec.CTX.path.loc)


def interleaved(a, b, same=True, lines=(False, False), step=1):
    """while one thread parses a text another one takes over at a function call, parses a text, and hands back"""
    def run(case):
        w, it = spec.W, spec.W.interp
        p1 = w.parser(add_line_numbers=lines[0])
        p2 = p1 if same else w.parser(add_line_numbers=lines[1])
        out, at = [], 0
        while True:
            count, inner = [0], []

            def take_over(at=at, count=count, inner=inner):
                count[0] += 1
                if count[0] <= at or w.held:
                    return
                it.preempt = None
                w.thread, depth, it.depth = 1, it.depth, 0
                try:
                    inner.append(contextvars.Context().run(settled, lambda: w.parse(b.text(), parser=p2)))
                finally:
                    w.thread, it.depth = 0, depth
            it.preempt = take_over
            try:
                outer = settled(lambda: w.parse(a.text(), parser=p1))
            finally:
                it.preempt = None
            if not inner:
                return out
            out.append((at, outer, inner[0]))
            at = count[0] - 1 + step
    c = Case(f"{b.name} while {a.name} ({'same' if same else 'other'} parser{', line numbers ' + str(lines) if any(lines) else ''})",
             a.segs, a.want, judge=judge_interleaved, run=run)
    c.inner = b
    return c


def judge_interleaved(case, p, o, want):
    if o.status == "raised":
        yield J.raised(o)
        return
    if not o.value:
        yield "no call", "no function of the library runs during a parse", None
    inner = case.inner.expected()
    seen = set()
    for at, a, b in o.value:
        for who, r, w in (("the interrupted parse", a, want), ("the other parse", b, inner)):
            if w is None:
                continue
            for k, msg, loc in spec.default_judge(case, p, r, w):
                if (who, k) not in seen:
                    seen.add((who, k))
                    yield f"{who}|{k}", f"{who}, switched at call event {at}: {msg}", loc
        if a.status == b.status == "ok":
            mine = all_containers(a.value, {})
            both = mine.keys() & all_containers(b.value, {}).keys()
            if both and "shared" not in seen:
                seen.add("shared")
                v = mine[both.pop()]
                yield "shared", f"two results share {spec.show(v)[:200]}", spec._site(v, None)
        if len(seen) > 3:
            return


def failing():
    out = []
    r, c, e = ST.IP("fr"), ST.IP("fc"), E("fe")
    x = I("fx")
    child = ["resource ", r, " 'Zq.Ns/t@1' = {\n  resource ", c, " 'zt' = {\n    zk: ", e, "\n  }\n}\n"]
    imp = ["import {", x, "} from 'zq.bicep'\n"]
    for n, segs in (("syntax error", [*child, *imp, "param\n"]), ("odd quotes", [*imp, "var zq = '''\n"]),
                    ("unknown scope after children", [*child, *imp, "targetScope = 'zq'\n"]), ("unknown scope first", ["targetScope = 'zq'\n", *child, *imp]),
                    ("bad module after children", [*child, *imp, "module zqm 'br:x' = {}\n"]), ("bad module first", ["module zqm 'ts/x' = {}\n", *child, *imp]),
                    ("bad resource type after children", [*imp, *child, "resource zqq 'zq' = {}\n"]),
                    ("bad argument count", [*child, *imp, "var zq = contains(1)\n"]), ("bad decorated statement", [*imp, *child, "@allowed(contains(1))\nparam zq string\n"])):
        out.append(Case(n, segs, None))
    return out


@check("C16", "no container is reachable twice in a result or from two results, and the result of a parse is the one a fresh library would give",
       INTERP + "Aliasing in the results of every construct; histories: parse (successful or failing), change every container of the result, "
       "parse the same or another text on the same or another parser with the same or other options, compare with the demanded result; "
       "schedules: at every function call and return of a parse another thread parses a text on the same or another parser.")
def c16(tier):
    from .checks import child_stmt
    corpus = whole_corpus(tier)
    out = judged(corpus + LO.everything(tier), J.judge_alias)
    # one construct twice
    again = CO.statements() + CO.decorators() + [ST.file_case(n, [r.stmt()]) for n, r in child_templates("quick")]
    again += matrix([CO.variable_position()], X.all_forms("z")) + matrix([CO.variable_position()], CO.function_frags("g"))
    again += matrix([p for p in X.positions() if p.name in ("resource property", "loop filter", "decorator allowed", "only argument", "only array item")],
                    X.main_forms("z"))
    for c in again:
        for how in ("add", "clear"):
            out.append(run_case(history(c, c, True, how=how)))
    # histories over all kinds of statements
    kinds = [ST.file_case(s.name, [s]) for s in [*ST.one_each("a"), child_stmt("a")]]
    other = [ST.file_case(s.name, [s]) for s in [*ST.one_each("b"), child_stmt("b")]]
    deco = [ST.file_case(f"decorated {s.name}", [ST.with_decorators(s, ST.decorator_list("e")[:3])]) for s in ST.one_each("c") if s.kind in ST.DECORATED]
    empty = Case("empty file", [""], X.doc)
    full = ST.file_case("all kinds", [*ST.one_each("f"), child_stmt("f", True)])
    for a in kinds + deco + failing() + [empty, full]:
        for b in other + deco[:2] + [empty, full]:
            out.append(run_case(history(a, b, True)))
            if a in (full, empty) or a.want is None or tier == "thorough":
                out.append(run_case(history(a, b, False)))
                out.append(run_case(history(a, b, True, how="clear")))
    # several failures and successes in a row
    for b in (empty, full, other[1], deco[0]):
        fs = failing()
        out.append(run_case(history([*fs, full, *fs], b)))
        out.append(run_case(history([full, fs[2], full, fs[4], kinds[0]], b, False)))
    # long histories
    for n in LO.counts(tier, 3, 130):
        row = [(kinds + deco + [empty])[i % (len(kinds) + len(deco) + 1)] for i in range(n)]
        for nm, b in (("all kinds", full), ("decorated", deco[0])):
            for same in (True, False):
                c = history(row, b, same)
                c.name = f"{n} texts -> {nm} ({'same' if same else 'other'} parser)"
                out.append(run_case(c))
        c = history([full] * n, full)
        c.name = f"{n} times all kinds"
        out.append(run_case(c))
    # two threads
    for a in [*kinds, *deco[:3], full]:
        for b in [*(other if a is not full or tier == "thorough" else other[::4]), full, *failing()[:3]]:
            step = 1 if a is not full and b is not full or tier == "thorough" else 3
            out.append(run_case(interleaved(a, b, True, step=step)))
            if a is full or b is full:
                out.append(run_case(interleaved(a, b, False, step=step)))
    # options of one parser do not reach another one
    for a in kinds + deco + [empty, full]:
        for la, lb in ((True, False), (False, True)):
            out.append(run_case(history(a, J.only(a, None, want=a.want if not lb else (lambda: None)), False, (la, lb), again=True)))
    return out


# --------------------------------------------------------------------------- C18
@check("C18", "every dict has the keys, literal tags and value types the published typed dictionaries promise for its construct",
       INTERP + "The typed dictionaries are read from the syntax tree of pycep/typing.py; every dict reachable from every result is "
       "matched with its declaration: required keys, undeclared keys, tags and the types of all parts that are not expressions.")
def c18(tier):
    from . import schema as SC
    cases = whole_corpus(tier) + [ST.file_case(n, [r.stmt()]) for n, r in siblings()]
    out = judged(cases, SC.judge_types)
    for c in CO.statements() + CO.decorators() + [ST.file_case(n, [r.stmt()]) for n, r in child_templates("quick")]:
        out.append(run_case(J.only(c, SC.judge_types, c.name + " with line numbers", lines=True, want=lambda: None)))
    out += judged(LO.everything(tier), SC.judge_types)
    return out
