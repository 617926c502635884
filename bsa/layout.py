"""Comments and layout at every place between two tokens of a set of source templates."""
from __future__ import annotations

import json
import pathlib
import re

import lark
from lark import Token, Tree

from . import corpus as CO, dom, forms as X, lexob, relang as R, spec, statements as ST, tables as TB
from .dom import Hole
from .runner import Task
from .spec import E, Case, F, I, L, M, S, SI, el, hole, st

BASELINE = pathlib.Path(__file__).with_name("layout_baseline.json")
TOKEN = re.compile(r"'''.*?'''|'(?:\\.|\$\{[^}]*\}|[^'\\])*'|//[^\n]*|\w+|\r?\n|[ \t]+|=>|==|!=|>=|<=|&&|\|\||\?\?|::|=~|!~|.", re.S)
MANY = 3  # stands for any amount


def without_quotes(pattern):
    qqq = R.concat(R.SIGMA_STAR, R.word("'''"), R.SIGMA_STAR)
    return (L(pattern) - qqq).minimize()


_l: dict = {}


def lg(key, pattern):
    if key not in _l:
        _l[key] = without_quotes(pattern)
    return _l[key]


class Unit:
    """a piece of layout; make(n) gives its segments, with holes named after n"""

    def __init__(self, key, name, make, before_break=False):
        self.key, self.name, self.make, self.before_break = key, name, make, before_break


BLOCK = r"/\*(?:[^*]|\*+[^*/])*\*+/"
UNITS = [
    Unit("b", "blanks", lambda n: [hole(f"b{n}", "G", lg("b", r"[ \t]+"), " ")]),
    Unit("c", "block comment", lambda n: [hole(f"c{n}", "G", lg("c", BLOCK), "/* zq */")]),
    Unit("n", "line break", lambda n: [hole(f"n{n}", "G", lg("n", r"(\r?\n)+"), "\n"), hole(f"m{n}", "G", lg("b", r"[ \t]+"), " ")]),
    Unit("k", "comment line", lambda n: [hole(f"k{n}", "G", lg("k", r"//[^\n]*(\r?\n)+"), "// zq\n")]),
    Unit("g", "hash comment line", lambda n: [hole(f"g{n}", "G", lg("h", r"#[^\n]*"), "# zq"), "\n"]),
    Unit("l", "comment at the end of the line", lambda n: [" ", hole(f"l{n}", "G", lg("l", r"//[^\n\r]*"), "// zq")], True),
    Unit("h", "hash comment at the end of the line", lambda n: [hole(f"h{n}", "G", lg("h", r"#[^\n]*"), "# zq")], True),
]


def rep_text(segs):
    return "".join(s.rep if isinstance(s, Hole) else s for s in segs)


def gaps(text):
    """offsets of the starts of the tokens, and the end"""
    out = []
    for m in TOKEN.finditer(text):
        if not m.group().strip(" \t") == "":
            out.append(m.start())
    return out + [len(text)]


def insert(segs, at, new):
    out, pos, done = [], 0, False
    for s in segs:
        t = s.rep if isinstance(s, Hole) else s
        if not done and pos == at:
            out += new
            done = True
        if not done and isinstance(s, str) and pos < at < pos + len(t):
            out += [s[: at - pos], *new, s[at - pos:]]
            done = True
        else:
            out.append(s)
        pos += len(t)
    if not done:
        out += new
    return out


def shape(real, text):
    """kinds and texts of the tree without positions, or None when rejected"""
    try:
        t = real.parse(text)
    except lark.exceptions.LarkError:
        return None

    def rec(n):
        if isinstance(n, Token):
            return (n.type, str(n))
        if isinstance(n, Tree):
            return (str(n.data), tuple(rec(c) for c in n.children))
        return n
    return rec(t)


def stack_at(real, text, offset):
    """parser states when everything before the offset has been read"""
    ip = real.parse_interactive(text)
    lt = ip.lexer_thread
    stt = lt.state
    ctr = stt.line_ctr
    while ctr.char_pos < offset:
        lx = lt.lexer.lexers[ip.parser_state.position]
        m = lx.match(stt.text, ctr.char_pos)
        if not m:
            return None
        val, typ = m
        if typ in lx.ignore_types and typ not in lx.callback:
            ctr.feed(val, typ in lx.newline_types)
            continue
        ip.feed_token(lx.next_token(stt, ip.parser_state))
    return tuple(ip.parser_state.state_stack)


def amount(real, base, at, unit, shp):
    """0, 1, 2 or MANY repetitions of the unit are accepted and leave the tree as it is; -1: the tree becomes another one"""
    one = rep_text(unit.make("0"))
    best = 0
    for k in (1, 2, 3):
        t = base[:at] + one * k + base[at:]
        s = shape(real, t)
        if s is None:
            return best
        if s != shp:
            return best or -1
        best = k
    if unit.key in ("b", "l", "h"):
        return MANY
    a, b = (stack_at(real, base[:at] + one * k + base[at:], at + len(one) * k) for k in (2, 3))
    if a is not None and a == b:
        return MANY
    return MANY if all(shape(real, base[:at] + one * k + base[at:]) == shp for k in (4, 5, 8, 13)) else 2


def bases(tier):
    """(case); every case has a result of its own to compare with"""
    out = []

    def add(name, segs, want):
        out.append(Case(name, segs, want))
    for s in ST.every("y"):
        if " existing" in s.name or "filtered" in s.name and s.kind == "module":
            continue
        out.append(ST.file_case(s.name, [s], end="\n"))
    for s in ST.one_each("y"):
        out.append(ST.file_case(f"{s.name} at the end of the file", [s], end=""))
        if s.kind in ST.DECORATED:
            ds = ST.decorator_list("yd")
            out.append(ST.file_case(f"decorated {s.name}", [ST.with_decorators(s, [ds[0], ds[-1], ds[4]])]))
            out.append(ST.file_case(f"decorated {s.name} on one line", [ST.with_decorators(s, [ds[1], ds[2]], " ")]))
    two = ST.one_each("y1"), ST.one_each("y2")
    for i, a in enumerate(two[0]):
        b = two[1][(i + 3) % len(two[1])]
        if not a.kind == b.kind == "scope":
            out.append(ST.file_case(f"{a.name} then {b.name}", [a, b]))
    forms = [f for f in X.all_forms("y") if tier == "thorough" or not f.name.startswith("(") or "operator" not in f.name]
    places = {p.name: p for p in X.positions()}
    for f in forms:
        out.append(Case(f"variable value / {f.name}", places["variable value"].segs(f), places["variable value"].want(f)))
    some = [f for f in X.main_forms("y") if f.name in ("identifier", "quoted", "interpolated", "multi-line", "integer", "true", "array inline", "array multi-line", "empty array",
                                                       "object inline", "object multi-line", "empty object", "call with two arguments", "built-in call",
                                                       "property access", "index access", "method call", "operator ==", "operator -", "(operator -)")]
    want = list(places) if tier == "thorough" else [
        "parameter default", "output value", "type value", "function body", "resource property", "nested property", "extension configuration", "resource condition",
        "module loop source", "loop property", "loop filter", "decorator allowed", "unknown decorator", "parentheses", "non-null assertion", "middle line of array",
        "first of inline array", "first object value", "value of quoted key", "interior argument", "argument on its own line", "true value", "lambda body",
        "body of indexed loop", "index", "method argument", "left of ==", "right of &&", "operand of unary !", "indexed value", "object of property"]
    for n in want:
        p = places[n]
        for f in some if tier == "thorough" else [f for f in some if f.name in ("identifier", "quoted", "array multi-line", "object multi-line")]:
            out.append(Case(f"{n} / {f.name}", p.segs(f), p.want(f)))
    from .checks2 import child_templates
    for n, r in child_templates("quick"):
        if n in ("plain parent, plain child", "condition parent, existing condition child", "loop parent, plain child", "4 levels",
                 "plain child with own dependencies (before)", "plain parent with child after and before others"):
            out.append(ST.file_case(n, [r.stmt()]))
    p, a, b, c = I("yp"), I("ya"), I("yb"), I("yc")
    for n, segs, w in (("array of array", [a, "[][]"], lambda: X.array_t(st(a), 2)), ("array of union", ["(", a, " | ", b, ")[]"], lambda: X.array_t(X.union_t(st(a), st(b)))),
                       ("nested union", ["(", a, " | (", b, " | ", c, "))"], lambda: X.union_t(st(a), X.union_t(st(b), st(c))))):
        add(f"type {n}", ["param ", p, " ", *segs, "? = ", E("yd"), "\n"], lambda w=w: X.doc(X.param(st(p), w(), E("yd").val())))
    e, g = E("ye"), E("yg")
    add("commas", ["var ", p, " = {\n  zk: ", e, ", zl: ", g, "\n  zm: [", e, ", ", g, "\n  ", e, "]\n}\n"],
        lambda: X.doc(X.var(st(p), {"zk": e.val(), "zl": g.val(), "zm": [e.val(), g.val(), e.val()]})))
    add("two objects", ["var ", p, " = [\n  {\n    zk: ", e, "\n  }\n  {\n    zl: ", g, "\n  }\n]\n"],
        lambda: X.doc(X.var(st(p), [{"zk": e.val()}, {"zl": g.val()}])))
    add("properties of types", ["type ", p, " = {\n  zk: ", a, "?\n  zl: ", b, "\n}\n"], lambda: X.doc(X.custom_type(st(p), {"zk": el(a), "zl": el(b)})))
    seen = {}
    for c in out:
        seen.setdefault(c.name, c)
    return list(seen.values())


def survey(case, real):
    """{unit: amounts per gap} of the representative text, None when it is rejected"""
    text = rep_text(case.segs)
    shp = shape(real, text)
    if shp is None:
        return None
    gs = gaps(text)
    out = {}
    for u in UNITS:
        row = []
        for at in gs:
            if u.before_break and not (at == len(text) or text[at] in "\r\n"):
                row.append("-")
                continue
            n = amount(real, text, at, u, shp)
            row.append("x" if n < 0 else str(n))
        out[u.key] = "".join(row)
    return out


def write_baseline():
    real = spec.W.larks[0].real
    data = {}
    for c in bases("thorough"):
        r = survey(c, real)
        if r is None:
            raise SystemExit(f"{c.name} is rejected")
        data[c.name] = r
    BASELINE.write_text(json.dumps(data, indent=0) + "\n", encoding="utf-8")
    return data


# --------------------------------------------------------------------------- the obligations
BREAKS = ("n", "k", "g")


def in_array(text, at):
    """is the place directly inside of an array, where a line break separates items?"""
    stack = []
    prev = ""
    for m in TOKEN.finditer(text):
        t = m.group()
        if m.start() >= at:
            break
        if not t.strip():
            continue
        if t in "([{" and len(t) == 1:
            kind = t
            if t == "[" and (re.fullmatch(r"\w+|\]|\)|\}|'.*'", prev, re.S) and prev not in ("in",)):
                kind = "index"
            stack.append([kind, m.end()])
        elif t in ")]}" and stack:
            stack.pop()
        if t == "for" and prev == "[":
            stack[-1][0] = "for"
        prev = t
    return bool(stack) and stack[-1][0] == "["


def layout_case(case, unit, spots, times, want=None):
    """the case with the unit at every spot (offsets of the representative text)"""
    segs = case.segs
    for n, at in sorted(enumerate(spots), key=lambda x: -x[1]):
        new = []
        for k in range(times):
            new += unit.make(f"{n}" if not k else f"{n}_{k}")
        segs = insert(segs, at, new)
    return Case(f"{case.name} / {unit.name}{' repeated' if times > 1 else ''}", segs, want or case.want, judge=case.judge)


def obligations(case, stats, baseline, lex=True):
    real = spec.W.larks[0].real
    text = rep_text(case.segs)
    shp = shape(real, text)
    count = stats.extra
    if shp is None:
        count["templates_rejected"] = count.get("templates_rejected", 0) + 1
        return []
    rows = survey(case, real)
    gs = gaps(text)
    old = baseline.get(case.name, {})
    out = []
    for u in UNITS:
        row, was = rows[u.key], old.get(u.key, "")
        if len(was) != len(row):
            stats.undecided.append((case.name, f"no record of the places that accept a {u.name}"))
            was = row
        for i, (now, before) in enumerate(zip(row, was)):
            if before.isdigit() and before != "0":
                count["places_accepting_layout"] = count.get("places_accepting_layout", 0) + 1
                if (now if now.isdigit() else "0") < before:
                    t = text[: gs[i]] + rep_text(u.make("0")) * (int(now) + 1 if now.isdigit() else 1) + text[gs[i]:]
                    what = "is rejected" if now != "x" else "changes the tree"
                    out.append(spec.Finding(case, f"{case.name}|{u.key}{i}|rejected", f"a {u.name} that was accepted at {at(text, gs[i])} {what}"
                                            + (f" (accepted {now} times)" if now.isdigit() and now != "0" else ""), None, detail={"text": t}))
    plain = spec.check(case, spec.Stats())
    if plain:
        count["templates_recorded_otherwise"] = count.get("templates_recorded_otherwise", 0) + 1
        return out
    seen = set()
    for u in UNITS:
        row = rows[u.key]
        good = [g for g, a in zip(gs, row) if a.isdigit() and a != "0"]
        many = [g for g, a in zip(gs, row) if a.isdigit() and int(a) >= 2]
        other = [i for i, a in enumerate(row) if a == "x"]
        for spots, times in ((good, 1), (many if u.key in ("n", "k", "g", "c") else [], 2)):
            if not spots:
                continue
            groups = [spots]
            c = layout_case(case, u, spots, times)
            if shape(real, rep_text(c.segs)) != shp:
                groups = [[g] for g in spots]
            for grp in groups:
                c = layout_case(case, u, grp, times)
                fs = spec.check(c, stats)
                if fs and len(grp) > 1:
                    fs = []
                    for g in grp:
                        fs += [(g, f) for f in spec.check(layout_case(case, u, [g], times), stats)]
                    fs = fs or [(grp[0], f) for f in spec.check(c, stats)]
                else:
                    fs = [(grp[0], f) for f in fs]
                for g, f in fs[:3]:
                    f.message = f"with a {u.name} at {at(text, g)}: {f.message}"
                    f.key = f"{case.name}|{u.key}{gs.index(g)}|{f.key.split('|', 1)[1]}"
                    out.append(f)
                if lex and times == 1:
                    for f in lexob.check(c, stats, ("G",)):
                        if f.key not in seen:
                            seen.add(f.key)
                            out.append(f)
        for i in other:
            if u.key in BREAKS and in_array(text, gs[i]):
                continue
            c = layout_case(case, u, [gs[i]], 1)
            for f in spec.check(c, stats)[:1]:
                f.message = f"with a {u.name} at {at(text, gs[i])}: {f.message}"
                f.key = f"{case.name}|{u.key}{i}|changes the result"
                out.append(f)
    return out


def at(text, g):
    return repr(text[max(0, g - 12): g] + "«»" + text[g: g + 12])


def tasks(tier):
    base = json.loads(BASELINE.read_text(encoding="utf-8"))
    return [Task(c.name, lambda st_, c=c: obligations(c, st_, base)) for c in bases(tier)]
