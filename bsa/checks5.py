from __future__ import annotations

import ast
import re

from . import dom, interp, redos, relang as R, spec
from .checks import check
from .runner import Task


# --------------------------------------------------------------------------- C19
class Place:
    def __init__(self, name, text):
        self.name, self.text = name, text

    def source(self):
        return self.text


OPS = {"match", "fullmatch", "search", "split", "findall", "finditer", "sub", "subn", "splititer", "template"}


def terminal_line(name):
    for path in spec.W.repo.joinpath(spec.W.package).rglob("*.lark"):
        for n, line in enumerate(path.read_text(encoding="utf-8").splitlines(), 1):
            if re.match(rf"{re.escape(name)}(\.\d+)?\s*:", line):
                return path, n
    return None


def grammar_patterns():
    """every terminal a scanner of the parsers can try"""
    w = spec.W
    w.parser()
    seen = set()
    for lk in w.larks:
        for t in lk.real.terminals:
            if t.pattern.type == "re" and (t.name, t.pattern.to_regexp()) not in seen:
                seen.add((t.name, t.pattern.to_regexp()))
                yield t.name, t.pattern.to_regexp(), lk.real.options.g_regex_flags, terminal_line(t.name)


def source_patterns(stats):
    """every pattern the package hands to re or regex: (name, pattern, flags, operations, location)"""
    w = spec.W
    w.parser()
    for m in list(w.modules.values()):
        w.load(m.name)
    found = {}
    for m in list(w.modules.values()):
        env = interp.Env(m.ns, None, m, "module")
        mods = {k for k, v in m.ns.items() if v is re}
        froms = {k: v.__name__ for k, v in m.ns.items() if getattr(v, "__module__", None) == "re" and callable(v)}

        def value(e):
            try:
                v = w.interp.ev(e, env)
            except Exception as x:  # noqa: BLE001
                return None, x
            if isinstance(v, re.Pattern):
                return (v.pattern, v.flags), None
            if isinstance(v, dom.AStr):
                v = None
            return ((v, 0) if isinstance(v, str) else None), None

        def note(e, op, extra=None):
            v, err = value(e)
            if v is None:
                if op is not None or err:
                    stats.undecided.append((f"{m.path}:{e.lineno}", f"pattern {ast.unparse(e)} is not a constant"))
                return
            pat, fl = v
            if extra is not None:
                try:
                    fl |= int(w.interp.ev(extra, env))
                except Exception:  # noqa: BLE001
                    pass
            r = found.setdefault((pat, fl & ~re.U), (set(), (m.path, e.lineno)))
            if op:
                r[0].add(op)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in mods:
                fn = f.attr
            elif isinstance(f, ast.Name) and f.id in froms:
                fn = froms[f.id]
            elif isinstance(f, ast.Attribute) and f.attr in OPS:
                v, _ = value(f.value) if isinstance(f.value, (ast.Name, ast.Attribute, ast.Call)) else (None, None)
                if v and not isinstance(f.value, ast.Constant) and is_pattern(w, f.value, env):
                    note(f.value, f.attr)
                continue
            else:
                continue
            if fn not in OPS | {"compile"}:
                continue
            arg = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "pattern"), None)
            if arg is None:
                continue
            at = {"compile": 1, "match": 2, "fullmatch": 2, "search": 2, "findall": 2, "finditer": 2, "split": 3, "sub": 4, "subn": 4}.get(fn, 9)
            flags = n.args[at] if len(n.args) > at else next((k.value for k in n.keywords if k.arg == "flags"), None)
            note(arg, None if fn == "compile" else fn, flags)
    for m in list(w.modules.values()):
        for k, v in m.ns.items():
            for p in patterns_in(v, 0):
                found.setdefault((p.pattern, p.flags & ~re.U), (set(), (m.path, 1)))
    for (pat, fl), (ops, loc) in found.items():
        yield pat, fl, ops or {"fullmatch"}, loc


def is_pattern(w, e, env):
    try:
        return isinstance(w.interp.ev(e, env), re.Pattern)
    except Exception:  # noqa: BLE001
        return False


def patterns_in(v, depth):
    if isinstance(v, re.Pattern):
        yield v
    elif depth < 4 and isinstance(v, dict):
        for x in list(v.values()):
            yield from patterns_in(x, depth + 1)
    elif depth < 4 and isinstance(v, (list, tuple, set, frozenset)):
        for x in list(v):
            yield from patterns_in(x, depth + 1)


def analyse_pattern(name, pat, flags, ops, loc, deep):
    def run(stats):
        stats.cases += 1
        out = []
        for op in sorted({"fullmatch" if o == "fullmatch" else "match" for o in ops}):
            try:
                w, n, pos = redos.analyse(pat, flags, op, deep)
            except R.Unsupported as e:
                stats.undecided.append((name, str(e)))
                continue
            stats.extra["automaton_positions"] = stats.extra.get("automaton_positions", 0) + pos
            stats.extra["candidate_texts"] = stats.extra.get("candidate_texts", 0) + n
            stats.comparisons += n
            if w:
                pre, pump, suf = w
                prog = redos.Program(pat, flags)
                steps = [redos.cost(prog, pre + pump * k + suf, op) for k in (4, 8, 16, 32)]
                text = pre + pump * 32 + suf
                out.append(spec.Finding(Place(name, pat), f"{name}: exponential",
                                        f"scanning time is exponential: {pre!r} + n times {pump!r} + {suf!r} needs {steps} steps for n = 4, 8, 16, 32",
                                        loc, detail={"text": text, "prefix": pre, "pump": pump, "suffix": suf, "steps": steps}))
        return out
    return Task(name, run)


@check("C19", "no pattern the parser scans or splits text with has a text on which the number of backtracking steps grows exponentially",
       "Every terminal of the compiled grammar and every constant pattern passed to re or regex anywhere in the package (found in the syntax trees): "
       "ambiguity of the pattern's automaton (two ways around a loop on the same word) gives candidate texts, and a recurrence over program and text "
       "positions calculates the backtracking steps of a matcher without memory for growing numbers of repetitions; recursive patterns additionally get "
       "all short repeated texts over their letter classes.",
       ["a matcher without memory is the cost model: optimisations of a particular regular expression library are not relied on",
        "patterns that are not constants, back references and variable-width look-behind are listed as undecided"])
def c19(tier):
    deep = tier == "thorough"
    out = []
    for name, pat, flags, loc in grammar_patterns():
        out.append(analyse_pattern(f"terminal {name}", pat, flags, {"match"}, loc, deep))

    st = spec.Stats()
    for pat, fl, ops, loc in source_patterns(st):
        out.append(analyse_pattern(f"pattern {pat[:60]}", pat, fl, ops, loc, deep))
    if st.undecided:
        und = list(st.undecided)

        def listed(stats):
            stats.undecided += und
        out.append(Task("patterns that are not constants", listed))
    return out


# --------------------------------------------------------------------------- C22
def identifier_cases(tier):
    from . import corpus as CO, forms as X, statements as ST, tables as TB
    from .checks2 import child_templates
    from .spec import E, F, Frag, I, el, hole, st
    thorough = tier == "thorough"
    out = []
    # names of declarations, aliases, loop variables, parameters, types, keys
    for s in ST.every("z"):
        for en, end in ST.ENDINGS.items():
            if en in ("line break", "end of file") or thorough:
                out.append(ST.file_case(f"{s.name} / {en}", [s], end=end))
    for s in ST.every("z"):
        if s.kind in ST.DECORATED:
            out.append(ST.file_case(f"{s.name} / decorated", [ST.with_decorators(s, ST.decorator_list("d")[:1])]))
    # neighbours: an identifier next to every kind of statement
    for a in ST.one_each("a"):
        for b in ST.one_each("b"):
            if not (a.kind == b.kind == "scope"):
                out.append(ST.file_case(f"{a.name} then {b.name}", [a, b]))
    # expressions; for directly behind a bracket starts a loop, sys and az directly in front of a dot are the namespaces
    def part(*no):
        return (spec.ident_lang() - R.words(*no)).minimize()

    def forms(first):
        """first: words the leftmost identifier can not be"""
        tag = "".join(first)
        w0 = hole("wi" + tag, "I", part(*first), "zqwi", "id") if first else I("wi")
        q0 = hole("wq" + tag, "I", part("sys", "az", *first), "zqwi", "id")
        f0 = hole("wa", "I", part("for"), "zqwi", "id")
        j, k, l = I("wj"), I("wk"), I("wl")
        q = hole("wqj", "I", part("sys", "az"), "zqwj", "id")
        out = [
            Frag(w0, lambda: el(w0), "identifier"),
            Frag([F("wf"), "()"], lambda: TB.call(st(F("wf")), []), "call without arguments"),
            Frag([q0, ".", j], lambda: TB.prop(el(q0), el(j)), "property", tags=("tight", "chain")),
            Frag([F("wf"), "(", j, ")"], lambda: TB.call(st(F("wf")), [el(j)]), "call with identifier"),
            Frag([F("wf"), "(", j, ", ", k, ")"], lambda: TB.call(st(F("wf")), [el(j), el(k)]), "call with identifiers"),
            Frag([q0, ".?", j], lambda: TB.prop(el(q0), el(j)), "safe property", tags=("tight", "chain")),
            Frag([w0, "[", j, "]"], lambda: TB.index(el(w0), el(j)), "index", tags=("tight",)),
            Frag([w0, "::", j], lambda: TB.nested(el(w0), el(j)), "nested resource", tags=("tight", "chain")),
            Frag(["{\n  ", j, ": ", k, "\n  ", l, ": ", I("wm"), "\n}"], lambda: {st(j): el(k), st(l): el(I("wm"))}, "object lines"),
            Frag(["{ ", j, ": ", k, ", ", l, ": ", I("wm"), " }"], lambda: {st(j): el(k), st(l): el(I("wm"))}, "object inline"),
            Frag(["{", j, ":", k, "}"], lambda: {st(j): el(k)}, "object tight"),
            Frag(["[\n  ", f0, "\n  ", j, "\n]"], lambda: [el(f0), el(j)], "array lines"),
            Frag(["[", f0, ", ", j, "]"], lambda: [el(f0), el(j)], "array inline"),
            Frag([q0, ".listKeys(", j, ")"], lambda: TB.method(el(q0), "listKeys", [el(j)]), "method", tags=("tight",)),
            Frag([w0, " => ", j], lambda: X.lam(el(j), st(w0)), "lambda", bare=True),
            Frag(["(", j, ") => ", k], lambda: X.lam(el(k), st(j)), "lambda in parentheses", bare=True),
            Frag(["(", j, ", ", k, ") => ", l], lambda: X.lam(el(l), st(j), st(k)), "lambda with two variables", bare=True),
        ]
        ops = []
        for op in TB.BINARY:
            ops.append(Frag([w0, f" {op} ", j], lambda op=op: TB.binary(op, el(w0), el(j)), f"operator {op}", bare=True))
            ops.append(Frag([w0, op, j], lambda op=op: TB.binary(op, el(w0), el(j)), f"operator {op} tight", bare=True))
        for op in TB.UNARY:
            ops.append(Frag([op, j], lambda op=op: TB.unary(op, el(j)), f"unary {op}", bare=True))
        ops.append(Frag([w0, " ? ", j, " : ", k], lambda: TB.ternary(el(w0), el(j), el(k)), "conditional", bare=True))
        return out, ops

    def first_of(p):
        text = "".join(s if isinstance(s, str) else s.rep for s in p.pre).rstrip()
        return ("for",) if text.endswith("[") and not text.endswith(("a[", "b[")) and p.name not in ("index",) else ()
    pos = X.positions()
    some = ("parameter default", "resource property", "only line of array", "first line of array", "last line of array", "object value",
            "first object value", "only argument", "loop body", "filter of loop", "lambda body", "resource condition")
    for p in pos:
        fs, ops = forms(first_of(p))
        out += CO.matrix([p], fs[:1])
        if thorough or not p.tags & {"operand", "decorator"}:
            out += CO.matrix([p], fs[1:3])
        if thorough or p.name in some:
            out += CO.matrix([p], fs[3:])
        if p.name == "variable value" or thorough and p.name in some:
            out += CO.matrix([p], fs[3:] + ops + [X.paren(f) for f in ops + fs[-3:]])
    i, j, k = hole("wqi", "I", part("sys", "az"), "zqwi", "id"), I("wj"), I("wk")
    v = I("v")
    for n, dots in (("properties", (".", ".")), ("safe properties", (".?", ".?")), ("property of nested", ("::", "."))):
        out.append(spec.Case(f"chain of {n}", ["var ", v, " = ", i, dots[0], j, dots[1], k, "\n"], None))
    out.append(spec.Case("property of an index", ["var ", v, " = ", i, "[0].", j, "[", k, "].", I("wl"), "\n"], None))
    out.append(spec.Case("property of a call", ["var ", v, " = ", F("wf"), "(", j, ").", k, "\n"], None))
    # data types
    a, b, c = I("ya"), I("yb"), I("yc")
    for n, segs, want in (("array of array", [a, "[][]"], lambda: X.array_t(st(a), 2)),
                          ("union of arrays", ["(", a, "[] | ", b, ")"], lambda: X.union_t(X.array_t(st(a)), st(b))),
                          ("array of union", ["(", a, " | ", b, " | ", c, ")[]"], lambda: X.array_t(X.union_t(st(a), st(b), st(c)))),
                          ("nested union", ["(", a, " | (", b, " | ", c, "))"], lambda: X.union_t(st(a), X.union_t(st(b), st(c)))),
                          ("tight union", ["(", a, "|", b, ")"], lambda: X.union_t(st(a), st(b)))):
        p = I("p")
        out.append(spec.Case(f"type {n}", ["param ", p, " ", *segs, "\n"], lambda want=want: X.doc(X.param(st(p), want()))))
        out.append(spec.Case(f"optional type {n}", ["param ", p, " ", *segs, "? = ", I("pd"), "\n"],
                             lambda want=want: X.doc(X.param(st(p), want(), el(I("pd"))))))
        out.append(spec.Case(f"argument type {n}", ["func ", p, "(", I("pa"), " ", *segs, ", ", I("pb"), " ", a, ") ", *segs, " => ", I("pd"), "\n"],
                             lambda want=want: X.doc(X.func(st(p), {st(I("pa")): want(), st(I("pb")): st(a)}, want(), el(I("pd"))))))
    # resources in resources
    for n, r in child_templates("quick"):
        out.append(ST.file_case(n, [r.stmt()]))
    # keywords and names on a line of their own
    e = E("e")
    out.append(spec.Case("key after lines", ["var ", I("v"), " = {\n\n  // zq\n  ", I("wi"), ": ", e, "\n\n\n  ", I("wk"), ": ", e, "\n}\n"],
                         lambda: X.doc(X.var(st(I("v")), {st(I("wi")): e.val(), st(I("wk")): e.val()}))))
    out.append(spec.Case("key of object in array", ["var ", I("v"), " = [\n  {\n    ", I("wi"), ": ", e, "\n  }\n  {\n    ", I("wk"), ": ", e, "\n  }\n]\n"],
                         lambda: X.doc(X.var(st(I("v")), [{st(I("wi")): e.val()}, {st(I("wk")): e.val()}]))))
    out.append(spec.Case("key of object in object", ["var ", I("v"), " = {\n  ", I("wi"), ": {\n    ", I("wk"), ": ", e, "\n  }\n  ", I("wj"), ": ", e, "\n}\n"],
                         lambda: X.doc(X.var(st(I("v")), {st(I("wi")): {st(I("wk")): e.val()}, st(I("wj")): e.val()}))))
    return out


@check("C22", "every word that is an identifier is scanned as one name in every place a name can stand, and recorded letter for letter",
       "For every place a name can stand (declarations, aliases, loop and lambda variables, parameters, keys, properties, data types, expressions, called "
       "functions): automata built from the terminals' patterns decide whether every identifier (other than null, true and false) is scanned as that one token "
       "in the lexer state the LALR tables reach there, and abstract interpretation whether the recorded name is the word, letter for letter, for every word.",
       ["null, true and false are the reserved words"])
def c22(tier):
    from .runner import lex_case, run_case
    out = []
    seen = set()
    for c in identifier_cases(tier):
        if c.want is not None:
            out.append(run_case(c))
        key = tuple(s if isinstance(s, str) else id(s) for s in c.segs)
        if key not in seen:
            seen.add(key)
            out.append(lex_case(c, ("I", "F")))
    return out


# --------------------------------------------------------------------------- C21
@check("C21", "layout at every place between two tokens that accepts it leaves the result as it is, for every comment text, and every place that accepted "
       "it stays accepting",
       "For every template and every place between two of its tokens: reachability over the LALR tables decides whether, and how often, blanks, block "
       "comments, line breaks, comment lines and comments at the end of the line are accepted there, compared with the committed record of the places that "
       "accept them; equal parser stacks after two and three repetitions extend the answer to any number. Where accepted, abstract interpretation decides that "
       "the result is the one without, and automata built from the terminals' patterns that every comment text is scanned as that comment.",
       ["the places that accept layout are the ones of the committed record (bsa/layout_baseline.json)",
        "a line break between two items of an array separates them", "comments with triple quotes are exempt: the text is rejected as unbalanced"])
def c21(tier):
    from . import layout
    return layout.tasks(tier)
