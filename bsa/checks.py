"""One check per property: the obligations, the rule and what is trusted."""
from __future__ import annotations

import itertools

from . import corpus as CO, dom, forms as X, lexob, longs as LO, spec, statements as ST, tables as TB
from .runner import Task, lex_case, run_case
from .spec import E, Case, F, I, M, M1, N, S, SI, el, st

COMMON = [
    "Lark's LALR tables and scanner, built from the current grammar by Lark itself, are the semantics of the grammar",
    "Python's own semantics as modelled by the abstract interpreter (bsa/interp.py, bsa/dom.py, bsa/native.py)",
    "Unicode beyond ASCII is represented by one letter per character category a pattern can distinguish",
]

CHECKS: dict = {}


class Check:
    def __init__(self, pid, tasks, rule, explain, assumptions=()):
        self.pid, self.tasks, self.rule, self.explain = pid, tasks, rule, explain
        self.assumptions = COMMON + list(assumptions)


def check(pid, rule, explain, assumptions=()):
    def deco(f):
        CHECKS[pid] = Check(pid, f, rule, explain, assumptions)
        return f
    return deco


INTERP = ("Abstract interpretation of the package's syntax trees over source templates whose identifiers, literals and "
          "sub-expressions are holes standing for every word of a regular language (or every value); branches on holes split "
          "the path; nothing of the package is imported or executed. ")
SCAN = ("Scanning obligations: for every token that contains a hole, automata built from the terminals' patterns decide "
        "whether each word of the hole is scanned as that one token in the lexer state the LALR tables reach. ")


# --------------------------------------------------------------------------- C04
@check("C04", "every statement template gives exactly its own entry with every written part under its own field",
       INTERP + "All statement kinds x all subsets of optional parts x ways to end the statement.")
def c04(tier):
    out = []
    for s in ST.every("z"):
        ends = ST.ENDINGS if tier == "thorough" else ("line break", "end of file")
        for en in ends:
            out.append(run_case(ST.file_case(f"{s.name} / {en}", [s], end=ST.ENDINGS[en])))
    ds = ST.decorator_list("d")
    for s in ST.every("z"):
        if s.kind in ST.DECORATED:
            for k, nm in ((1, "decorated"), (3, "decorated three times")):
                out.append(run_case(ST.file_case(f"{s.name} / {nm}", [ST.with_decorators(s, ds[:k])])))
    # nested resources carry the same parts
    for w in ("", "condition", "loop", "filtered", "indexed", "object"):
        for v in ("", "condition", "loop"):
            for ex in (False, True):
                for de in (None, "before"):
                    c = CO.Res("b", wrap=w, existing=ex, depends=de)
                    out.append(run_case(ST.file_case(f"nested{' existing' if ex else ''} resource {w or 'plain'} in {v or 'plain'}, {de}",
                                                     [CO.Res("a", wrap=v, existing=not ex, children=[c], decorated=ex).stmt()])))
    out += [run_case(c) for c in LO.containers(tier) + LO.parts(tier)]
    return out


# --------------------------------------------------------------------------- C05
def decorate_one(s, n):
    return ST.with_decorators(s, [ST.decorator_list(n)[0]]) if s.kind in ST.DECORATED else s


def same_names(kinds):
    """statements of different kinds that declare the same name"""
    v, e = I("same"), E("e")
    tn, vn = ST.TN("k"), ST.VN("k")
    p = ST.PATH("k")
    make = {
        "metadata": ST.Stmt("metadata", ["metadata ", v, " = '", S("k"), "'"],
                            lambda: [("metadata", st(v), {"value": st(S("k"))})]),
        "param": ST.Stmt("param", ["param ", v, " string = ", e], lambda: [X.param(st(v), "string", e.val())]),
        "var": ST.Stmt("var", ["var ", v, " = ", e], lambda: [X.var(st(v), e.val())]),
        "output": ST.Stmt("output", ["output ", v, " string = ", e], lambda: [X.output(st(v), e.val())]),
        "resource": ST.Stmt("resource", ["resource ", v, " '", tn, "@", vn, "' = { zk: ", e, " }"],
                            lambda: [X.resource(st(v), st(tn), st(vn), {"zk": e.val()})]),
        "module": ST.Stmt("module", ["module ", v, " '", p, "' = { zk: ", e, " }"],
                          lambda: [X.module(st(v), st(p), {"zk": e.val()})]),
        "type": ST.Stmt("type", ["type ", v, " = ", e], lambda: [X.custom_type(st(v), e.val())]),
        "func": ST.Stmt("func", ["func ", v, "(", v, " string) string => ", e],
                        lambda: [X.func(st(v), {st(v): "string"}, "string", e.val())]),
        "extension": ST.Stmt("extension", ["extension ", v, " as ", v], lambda: [("extensions", st(v), {"alias": st(v)})]),
        "import": ST.Stmt("import", ["import {", v, "} from '", S("k"), "'"],
                          lambda: [("imports", st(v), {"file_path": st(S("k"))})]),
    }
    return [make[k] for k in kinds]


SAME = ("metadata", "param", "var", "output", "resource", "module", "type", "func", "extension", "import")


def child_stmt(n, words=False):
    """a resource with a nested resource"""
    r, c, k = ST.IP(n + "cr"), ST.IP(n + "cc"), "zk"
    if words:
        r, c = f"zr{n}", f"zc{n}"
    a, b = E(n + "a"), E(n + "b")
    segs = ["resource ", r, " '", ST.TN(n + "c"), "@", ST.VN(n + "c"), "' = {\n  ", k, ": ", a, "\n  resource ", c, " '", ST.TN(n + "d"),
            "' = {\n    ", k, ": ", b, "\n  }\n}"]

    def entries():
        return [X.resource(st(r), st(ST.TN(n + "c")), st(ST.VN(n + "c")), {st(k): a.val()}),
                X.resource(st(r, "__", c), st(ST.TN(n + "c"), "/", ST.TN(n + "d")), st(ST.VN(n + "c")),
                           {st(k): b.val(), "depends_on": [el(r)]})]
    return ST.Stmt("resource with child", segs, entries, kind="resource")


@check("C05", "a file of several statements gives exactly the union of the entries of its statements",
       INTERP + "All ordered pairs of statement kinds, repeated kinds, rotations and reversals of long files, "
       "equal names across all pairs of kinds, target scopes at every place, empty files.")
def c05(tier):
    out = []
    a, b = ST.one_each("a"), ST.one_each("b")
    a.append(child_stmt("a"))
    b.append(child_stmt("b"))
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if x.kind == y.kind == "scope":
                continue
            out.append(run_case(ST.file_case(f"{x.name}, {y.name}", [x, y])))
            if x.kind in ST.DECORATED or y.kind in ST.DECORATED:
                out.append(run_case(ST.file_case(f"{x.name}, {y.name} decorated",
                                                 [decorate_one(x, "p"), decorate_one(y, "q")])))
    # the same kind several times
    for k in range(len(a)):
        if a[k].kind == "scope":
            continue
        for count in (3, 5) + ((9,) if tier == "thorough" else ()):
            ss = [(ST.one_each(f"n{c}") + [child_stmt(f"n{c}", True)])[k] for c in range(count)]
            out.append(run_case(ST.file_case(f"{count} x {a[k].name}", ss)))
    # long files: rotations and reversals, the target scope at each place
    base = ST.one_each("l") + [child_stmt("l", True)]
    for r in range(len(base)):
        rot = base[r:] + base[:r]
        out.append(run_case(ST.file_case(f"all kinds from {rot[0].name}", rot)))
        out.append(run_case(ST.file_case(f"all kinds backwards from {rot[0].name}", rot[::-1])))
        noscope = [s for s in rot if s.kind != "scope"]
        out.append(run_case(ST.file_case(f"all kinds from {rot[0].name} without scope", noscope, sep="\n\n")))
    twice = base + [s for s in ST.one_each("m") + [child_stmt("m", True)] if s.kind != "scope"]
    out.append(run_case(ST.file_case("all kinds twice", twice)))
    out.append(run_case(ST.file_case("all kinds twice, mixed", twice[::2] + twice[1::2])))
    # names shared between kinds
    for x, y in itertools.permutations(SAME, 2):
        out.append(run_case(ST.file_case(f"same name: {x}, {y}", same_names((x, y)))))
    out.append(run_case(ST.file_case("same name: all kinds", same_names(SAME))))
    out.append(run_case(ST.file_case("same name: all kinds backwards", same_names(SAME[::-1]))))
    for n, text in (("empty", ""), ("line breaks", "\n\n"), ("comment", "// zq\n"), ("comment without line break", "/* zq */")):
        out.append(run_case(Case(f"document: {n}", [text], X.doc)))
    for s in ST.scopes():
        for t in a[:3]:
            out.append(run_case(ST.file_case(f"{s.name} before {t.name}", [s, t])))
            out.append(run_case(ST.file_case(f"{s.name} after {t.name}", [t, s])))
    # every variant of every statement next to a neighbour on both sides
    for s in ST.every("z"):
        near = [ST.variables("y")[0], s, ST.params("w")[1]]
        out.append(run_case(ST.file_case(f"{s.name} between others", near)))
    # imports with one name from different files are separate declarations
    x, p1, p2 = I("ix"), S("f1"), S("f2")
    two = [ST.Stmt("import", ["import {", x, "} from '", p1, "'"], lambda: [("imports", st(x), {"file_path": st(p1)})]),
           ST.Stmt("import", ["import {", x, " as ", I("iy"), "} from '", p2, "'"], [])]
    out.append(run_case(Case("one name imported from two files", [*two[0].segs, "\n", *two[1].segs, "\n"],
                             lambda: X.doc(("imports", "ANY", {})), judge=judge_two_imports)))
    out += [run_case(c) for c in LO.statements(tier) + LO.parts(tier)]
    return out


def judge_two_imports(case, p, o, want):
    if o.status != "ok":
        yield f"raises {type(o.exc).__name__}", f"conversion fails with {spec.explain(o.exc)}", o.loc
        return
    imps = o.value.get("imports", {})
    text = spec.show(imps)
    if not ("f1" in text and "f2" in text):
        yield "lost", f"only one of the two imports is recorded: {text}", None


# --------------------------------------------------------------------------- C06
@check("C06", "every written decorator is recorded exactly once, in order, with its argument, on its own declaration",
       INTERP + "All decorators with and without sys. prefix x all declaration kinds x argument shapes; stacks of "
       "several decorators in all pair orders; decorators of neighbouring declarations.")
def c06(tier):
    out = []
    stm = [s for s in ST.one_each("s") if s.kind in ST.DECORATED]
    ds = ST.decorator_list("d")
    for s in stm:
        for d in ds:
            out.append(run_case(ST.file_case(f"@{d.name} on {s.name}", [ST.with_decorators(s, [d])], classes=True)))
    es = ST.decorator_list("e")
    for s in stm if tier == "thorough" else stm[:1]:
        for d in ds:
            for e in es:
                out.append(run_case(ST.file_case(f"@{d.name} @{e.name} on {s.name}", [ST.with_decorators(s, [d, e])])))
    for s in stm:
        many = ST.decorator_list("d", True)
        out.append(run_case(ST.file_case(f"all decorators on {s.name}", [ST.with_decorators(s, many)])))
        out.append(run_case(ST.file_case(f"all decorators backwards on {s.name}", [ST.with_decorators(s, many[::-1])])))
        out.append(run_case(ST.file_case(f"same decorator repeated on {s.name}",
                                         [ST.with_decorators(s, [ds[0], es[0], ds[0]])])))
        for t in [x for x in ST.one_each("t")]:
            if t.kind == "scope":
                continue
            pair = [ST.with_decorators(s, [ds[0], ds[1]]), t]
            out.append(run_case(ST.file_case(f"decorated {s.name}, {t.name}", pair)))
            out.append(run_case(ST.file_case(f"{t.name}, decorated {s.name}", pair[::-1])))
            if t.kind in ST.DECORATED:
                both = [ST.with_decorators(s, [ds[0]]), ST.with_decorators(t, [es[2], es[4]])]
                out.append(run_case(ST.file_case(f"decorated {s.name}, decorated {t.name}", both)))
    # every variant of a statement, decorated
    for s in ST.every("z"):
        if s.kind in ST.DECORATED:
            out.append(run_case(ST.file_case(f"{s.name} decorated twice", [ST.with_decorators(s, [ds[0], es[-1]])])))
    # numeric bounds
    for name, ty in (("minValue", "min_value"), ("maxValue", "max_value")):
        for pre in ("", "sys."):
            for sign in ("", "-"):
                for lit in ("0", "1", N("b")):
                    def want(ty=ty, sign=sign, lit=lit):
                        v = int(lit) if isinstance(lit, str) else spec.num(lit)
                        v = v if not sign else (-v if isinstance(v, int) else dom.int_op("Sub", 0, v))
                        return {"type": ty, "argument": v}
                    d = ST.Deco(f"{pre}{name} {sign}{lit}", [f"@{pre}{name}({sign}", lit, ")"], want)
                    for s in stm[:3]:
                        out.append(run_case(ST.file_case(f"@{d.name} on {s.name}", [ST.with_decorators(s, [d])])))
                        out.append(run_case(ST.file_case(f"@{d.name} and another on {s.name}",
                                                         [ST.with_decorators(s, [d, es[0]])])))
    # decorators the library does not know keep their name
    for word in ("zqdeco", "discriminator", "onlyIfNotExists", "Secure", "secured", "minvalue", "minLengthX", "x1", "sealed2"):
        for arg in (False, True):
            e = E("ua")
            d = ST.Deco(word, [f"@{word}(", *([e] if arg else []), ")"],
                        lambda word=word, e=e, arg=arg: {"type": word, **({"argument": e.val()} if arg else {})})
            out.append(run_case(ST.file_case(f"unknown @{word}{' with argument' if arg else ''}",
                                             [ST.with_decorators(stm[0], [d])])))
    du = spec.hole("ud", "D", unknown_decorators(), "zqdecorator")
    for arg in (False, True):
        e = E("ua")
        d = ST.Deco("any unknown", ["@", du, "(", *([e] if arg else []), ")"],
                    lambda e=e, arg=arg: {"type": st(du), **({"argument": e.val()} if arg else {})})
        c = ST.file_case(f"any unknown decorator{' with argument' if arg else ''}", [ST.with_decorators(stm[0], [d])])
        out += [run_case(c), lex_case(c, ("D",))]
    # layout between the decorators, and between them and the declaration
    for nm, sep in (("several lines", "\n\n\n"), ("comment lines", "\n// zq\n"), ("one line", " "), ("CRLF", "\r\n")):
        s = ST.with_decorators(stm[0], [ds[0], es[1]], sep)
        out.append(run_case(ST.file_case(f"decorators separated by {nm}", [s])))
    # argument on its own line
    e = E("ml")
    for pre, post in (("\n  ", "\n"), ("\n", ""), (" ", " ")):
        d = ST.Deco("allowed", [f"@allowed({pre}", e, f"{post})"], lambda: {"type": "allowed", "argument": e.val()})
        out.append(run_case(ST.file_case(f"argument between {pre!r} and {post!r}", [ST.with_decorators(stm[0], [d, ds[1]])])))
    out += [run_case(c) for c in LO.decorators(tier)]
    return out


def unknown_decorators():
    from . import relang as R
    names = list(TB.DECORATORS)
    return (spec.L(r"[a-zA-Z][a-zA-Z0-9]*") - R.words(*names)).minimize()


from . import checks2, checks3, checks4, checks5  # noqa: E402,F401
