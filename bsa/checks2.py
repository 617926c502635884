from __future__ import annotations

import itertools

from . import corpus as CO, dom, forms as X, judges as J, lexob, longs as LO, relang as R, spec, statements as ST, tables as TB
from .checks import INTERP, SCAN, check
from .corpus import Res, matrix
from .runner import Task, lex_case, run_case
from .spec import E, Case, F, Frag, I, M, M1, N, S, SI, el, hole, num, st


def whole_corpus(tier):
    """everything: expressions in all positions, statements, functions, decorators, child resources"""
    forms = X.all_forms("z") if tier == "thorough" else X.main_forms("z")
    out = matrix(X.positions(), forms)
    out += CO.statements()
    out += CO.decorators()
    v = CO.variable_position()
    out += matrix([v], CO.function_frags("g", ("", "ns")))
    out += [ST.file_case(n, [r.stmt()]) for n, r in child_templates(tier)]
    out += type_cases(tier)
    out += [c for c, _ in module_cases()]
    return out


# --------------------------------------------------------------------------- C11
WRAPS = ("", "condition", "loop", "filtered", "indexed", "object")


def child_templates(tier):
    out = []
    for w1, w2 in itertools.product(WRAPS, WRAPS):
        for ex in (False, True):
            out.append((f"{w1 or 'plain'} parent, {'existing ' if ex else ''}{w2 or 'plain'} child",
                        Res("a", w1, children=[Res("b", w2, ex)])))
    for w1, w2, w3 in itertools.product(WRAPS if tier == "thorough" else WRAPS[:4], repeat=3):
        out.append((f"nested {w1 or 'plain'} > {w2 or 'plain'} > {w3 or 'plain'}",
                    Res("a", w1, children=[Res("b", w2, children=[Res("c", w3)])])))
    for depth in (4, 5, 6) + ((8, 12) if tier == "thorough" else ()):
        r = None
        for d in range(depth, 0, -1):
            r = Res(f"d{d}", WRAPS[d % 3] if depth % 2 else "", children=[r] if r else [])
        out.append((f"{depth} levels", r))
    for w in WRAPS:
        for dep in ("before", "after", "empty", "expression"):
            out.append((f"{w or 'plain'} child with own dependencies ({dep})", Res("a", children=[Res("b", w, depends=dep)])))
            out.append((f"{w or 'plain'} parent with own dependencies ({dep})", Res("a", w, depends=dep, children=[Res("b")])))
            out.append((f"dependencies at three levels {w or 'plain'} ({dep})", Res("a", depends=dep, children=[
                Res("b", w, depends=dep, children=[Res("c", depends=dep)])])))
    for b, a in itertools.product((False, True), repeat=2):
        for w in WRAPS:
            out.append((f"{w or 'plain'} parent with child {'after' if b else 'as first'} and {'before others' if a else 'last'}",
                        Res("a", w, before=b, after=a, children=[Res("b", w, before=a, after=b)])))
    for ex in (False, True):
        out.append((f"{'existing' if ex else 'decorated'} parent", Res("a", existing=ex, decorated=not ex, children=[
            Res("b", existing=ex, children=[Res("c")])])))
    return out


def siblings():
    out = []
    for w in ("", "condition"):
        out.append((f"{w or 'plain'} parent with two children", Res("a", w, children=[Res("b"), Res("c")])))
        out.append((f"{w or 'plain'} parent with three children", Res("a", w, children=[Res("b"), Res("c"), Res("d")])))
    out.append(("two children below a child", Res("a", children=[Res("b", children=[Res("c"), Res("d")])])))
    out.append(("two children, one with a child", Res("a", children=[Res("b", children=[Res("c")]), Res("d")])))
    return out


@check("C11", "every resource declared inside of another one is an entry of its own, named, typed and versioned after its "
       "parent and depending on it, and the parent keeps exactly its other content",
       INTERP + "Nesting of plain, conditional, looped, filtered, existing and decorated parents and children, up to six (twelve) "
       "levels, positions before, between and after other content, with and without own dependency lists; neighbours.")
def c11(tier):
    out = []
    for n, r in child_templates(tier) + siblings():
        out.append(run_case(ST.file_case(n, [r.stmt()])))
    # neighbours do not influence each other
    for w in WRAPS:
        rs = [Res(f"n{k}", w if k == 1 else "", children=[Res(f"m{k}", WRAPS[k], literal=True)], literal=True) for k in range(3)]
        out.append(run_case(ST.file_case(f"three parents, one {w or 'plain'}", [r.stmt() for r in rs])))
    one = ST.one_each("o")
    for s in one:
        r = Res("a", children=[Res("b", children=[Res("c", literal=True)], literal=True)], literal=True)
        out.append(run_case(ST.file_case(f"{s.name} before", [s, r.stmt()])))
        out.append(run_case(ST.file_case(f"{s.name} after", [r.stmt(), s])))
    # content that only looks like a child or like bookkeeping stays with the parent
    for key in ("resource", "'resource'", "child_resource", "__child_resource__", "resources", "config", "condition", "depends_on",
                "loop_type", "__name__", "__attrs__"):
        for child in (False, True):
            r, e, kid = ST.IP("kr"), E("ke"), Res("kb")
            head = ["resource ", r, " '", ST.TN("k"), "@", ST.VN("k"), "' = {\n  ", key, ": { zq: ", e, " }\n"]
            segs = [*head, *(kid.segs(False, "  ") if child else []), *(["\n"] if child else []), "}"]

            def entries(r=r, key=key, e=e, kid=kid, child=child):
                out = [X.resource(st(r), st(ST.TN("k")), st(ST.VN("k")), {key: {"zq": e.val()}})]
                return out + (kid.entries(([r], [ST.TN("k")], ST.VN("k"))) if child else [])
            out.append(run_case(ST.file_case(f"property {key}{' and child' if child else ''}",
                                             [ST.Stmt("resource", segs, entries, kind="resource")])))
    # a nested resource that shares its name with others
    for same in ("parent", "other"):
        r, o = ST.IP("pr"), ST.IP("or")
        c = r if same == "parent" else o
        e = E("sn")
        segs = ["resource ", r, " '", ST.TN("k"), "@", ST.VN("k"), "' = {\n  resource ", c, " 'zt' = {\n    zq: ", e, "\n  }\n}\n",
                "resource ", o, " '", ST.TN("l"), "@", ST.VN("l"), "' = {}"]

        def entries(r=r, c=c, o=o, e=e):
            return [X.resource(st(r), st(ST.TN("k")), st(ST.VN("k")), {}), X.resource(st(o), st(ST.TN("l")), st(ST.VN("l")), {}),
                    X.resource(st(r, "__", c), st(ST.TN("k"), "/zt"), st(ST.VN("k")), {"zq": e.val(), "depends_on": [el(r)]})]
        out.append(run_case(ST.file_case(f"child named like the {same} resource",
                                         [ST.Stmt("resource", segs, entries, kind="resource")])))
    out += [run_case(c) for c in LO.children(tier)]
    return out


# --------------------------------------------------------------------------- C20
class Ty:
    def __init__(self, name, segs, val):
        self.name, self.segs, self._val = name, spec.flat(segs), val

    def val(self):
        return self._val() if callable(self._val) else self._val


def ty_names(n, k):
    return [Ty(f"T{i}", [I(f"{n}t{i}")], lambda i=i: st(I(f"{n}t{i}"))) for i in range(k)]


def ty_array(t, n=1, gap=""):
    return Ty(t.name + "[]" * n, [*t.segs, *([gap + "[]"] * n)], lambda: X.array_t(t.val(), n))


def ty_union(*ms, bar=" | "):
    segs = ["("]
    for i, m in enumerate(ms):
        segs += [bar if i else "", *m.segs]
    return Ty("(" + "|".join(m.name for m in ms) + ")", [*segs, ")"], lambda: X.union_t(*[m.val() for m in ms]))


def ty_all(n, depth):
    a, b, c, d, e, f = ty_names(n, 6)
    out = [a, *[Ty(w, w, w) for w in ("string", "int", "bool", "object", "array", "resource", "for", "if", "typex", "paramList")]]
    out += [ty_array(a, k) for k in (1, 2, 3, 4)]
    out += [ty_array(a, 1, " "), ty_array(a, 2, " ")]
    base = [ty_union(a, b), ty_union(a, b, c), ty_union(a, b, c, d, e), ty_union(a, b, bar="|"), ty_union(a, a)]
    mixed = [ty_union(ty_array(a), b), ty_union(a, ty_array(b)), ty_union(ty_array(a), ty_array(b, 2)), ty_union(ty_array(a, 2), b, ty_array(c))]
    nest = [ty_union(ty_union(a, b), c), ty_union(a, ty_union(b, c)), ty_union(ty_union(a, b), ty_union(c, d)),
            ty_union(ty_array(ty_union(a, b)), c), ty_union(a, ty_array(ty_union(b, c), 2)),
            ty_union(ty_union(ty_array(a), ty_union(b, c)), ty_array(ty_union(d, e)), f)]
    allu = base + mixed + nest
    out += allu + [ty_array(u) for u in allu] + [ty_array(u, 2) for u in allu]
    u = ty_union(a, b)
    for k in range(depth):
        u = ty_array(ty_union(u, ty_names(f"{n}{k}", 1)[0]), k % 3)
    out.append(Ty("deep", u.segs, u.val))
    return out


def typed_positions():
    p, f, q, r = I("tp"), I("tf"), I("tq"), I("tr")
    e = E("te")
    out = [
        ("parameter", ["param ", p, " "], "", lambda t: [X.param(st(p), t)]),
        ("optional parameter", ["param ", p, " "], "?", lambda t: [X.param(st(p), t)]),
        ("parameter with default", ["param ", p, " "], [" = ", e], lambda t: [X.param(st(p), t, e.val())]),
        ("optional parameter with default", ["param ", p, " "], ["? = ", e], lambda t: [X.param(st(p), t, e.val())]),
        ("variable", ["var ", p, " "], [" = ", e], lambda t: [X.var(st(p), e.val(), t)]),
        ("optional variable", ["var ", p, " "], ["? = ", e], lambda t: [X.var(st(p), e.val(), t)]),
        ("output", ["output ", p, " "], [" = ", e], lambda t: [X.output(st(p), e.val(), t)]),
        ("optional output", ["output ", p, " "], ["? = ", e], lambda t: [X.output(st(p), e.val(), t)]),
        ("return type", ["func ", f, "() "], [" => ", e], lambda t: [X.func(st(f), {}, t, e.val())]),
        ("only argument", ["func ", f, "(", q, " "], [") string => ", e], lambda t: [X.func(st(f), {st(q): t}, "string", e.val())]),
        ("first argument", ["func ", f, "(", q, " "], [", ", r, " int) string => ", e],
         lambda t: [X.func(st(f), {st(q): t, st(r): "int"}, "string", e.val())]),
        ("last argument", ["func ", f, "(", r, " int, ", q, " "], [") string => ", e],
         lambda t: [X.func(st(f), {st(r): "int", st(q): t}, "string", e.val())]),
    ]
    return out


def type_cases(tier):
    out = []
    for name, pre, post, wrap in typed_positions():
        for t in ty_all("y", 6 if tier == "thorough" else 3):
            s = ST.Stmt(name, [*pre, *t.segs, *spec.flat(post)], lambda wrap=wrap, t=t: wrap(t.val()))
            out.append(ST.file_case(f"{name}: {t.name}", [s]))
    return out


def literal_unions(n=""):
    """unions in type statements: (name, segments, expected text)"""
    out = []
    for k in (2, 3, 4, 6):
        ss = [S(f"lu{i}") for i in range(k)]
        out.append((f"{k} strings", [x for i, s in enumerate(ss) for x in (" | " if i else "", "'", s, "'")],
                    lambda ss=ss: st(*[x for i, s in enumerate(ss) for x in ([" | "] if i else []) + [s]])))
        nums = [str(x) for x in (30, 4, 12, 0, 7, 100)[:k]]
        out.append((f"{k} integers", [" | ".join(nums)], " | ".join(nums)))
        ids = [I(f"lu{i}") for i in range(k)]
        out.append((f"{k} names", [x for i, s in enumerate(ids) for x in (" | " if i else "", s)],
                    lambda ids=ids: st(*[x for i, s in enumerate(ids) for x in ([" | "] if i else []) + [s]])))
    a, b, c = S("lua"), I("lub"), M1("luc")
    out.append(("mixed", ["'", a, "' | ", b, " | '", S("lud"), "'"], lambda: st(a, " | ", b, " | ", S("lud"))))
    out.append(("without blanks", ["'", a, "'|'", S("lud"), "'"], lambda: st(a, " | ", S("lud"))))
    out.append(("equal members", ["'", a, "' | '", a, "'"], lambda: st(a, " | ", a)))
    out.append(("empty member", ["'' | '", a, "'"], lambda: st(" | ", a)))
    out.append(("empty member last", ["'", a, "' | ''"], lambda: st(a, " | ")))
    out.append(("numbers 0 and 1", ["0 | 1"], "0 | 1"))
    out.append(("numbers 10, 5 and 20", ["10 | 5 | 20"], "10 | 5 | 20"))
    out.append(("string and number", ["'", a, "' | 0"], lambda: st(a, " | 0")))
    return out


def union_cases():
    out = []
    for name, segs, want in literal_unions():
        t = I("lut")
        for deco in (False, True):
            s = ST.Stmt("type", ["type ", t, " = ", *segs],
                        lambda want=want: [X.custom_type(st(t), want() if callable(want) else want)], kind="type")
            if deco:
                s = ST.with_decorators(s, [ST.decorator_list("d")[2]])
            out.append(ST.file_case(f"type {name}{' decorated' if deco else ''}", [s]))
    return out


@check("C20", "a data type is recorded as its name, as one array wrapper per suffix and as unions with all members in order",
       INTERP + "Names, unions and array suffixes in 50 nestings (three, thorough: six more levels) in every typed position, "
       "mandatory and optional; unions of literals in type statements. ")
def c20(tier):
    out = [run_case(c) for c in type_cases(tier) + union_cases()]
    # several types in one statement and in neighbouring ones
    ts = ty_all("v", 1)
    for i, t in enumerate(ts):
        u = ty_all("w", 1)[-1 - i]
        f, q, r, e = I("tf"), I("tq"), I("tr"), E("te")
        s = ST.Stmt("func", ["func ", f, "(", q, " ", *t.segs, ", ", r, " ", *u.segs, ") ", *t.segs, " => ", e],
                    lambda t=t, u=u: [X.func(st(f), {st(q): t.val(), st(r): u.val()}, t.val(), e.val())])
        p = I("tp")
        s2 = ST.Stmt("param", ["param ", p, " ", *u.segs], lambda u=u: [X.param(st(p), u.val())])
        out.append(run_case(ST.file_case(f"two types: {t.name}, {u.name}", [s, s2])))
        out.append(run_case(ST.file_case(f"two types: {u.name} before {t.name}", [s2, s])))
    for name, pre, post, wrap in typed_positions():
        for t in [ty_names("y", 1)[0], ty_array(ty_names("y", 1)[0]), ty_union(*ty_names("y", 2))]:
            c = ST.file_case(f"{name}: {t.name}", [ST.Stmt(name, [*pre, *t.segs, *spec.flat(post)],
                                                           lambda wrap=wrap, t=t: wrap(t.val()))])
            out.append(lex_case(c, ("I",)))
    out += [run_case(c) for c in LO.types(tier) + LO.literal_unions(tier)]
    return out


# --------------------------------------------------------------------------- C07 C08
@check("C07", "every argument of a built-in appears once, unchanged, under the parameter its position stands for; which one "
       "depends on the number of arguments only",
       INTERP + "All documented built-ins x all permitted argument counts (variadic ones up to six) with opaque arguments, as "
       "statement value and nested in other calls; equal arguments; literal arguments of every kind in every place.",
       ["the table of built-ins and their parameters (bsa/tables.py) restates Bicep's documentation and pycep's result types"])
def c07(tier):
    v = CO.variable_position()
    fr = CO.function_frags("g")
    out = [run_case(c) for c in matrix([v], fr)]
    pos = [p for p in X.positions() if p.name in ("parameter default", "output value", "loop source", "resource condition",
                                                  "last argument", "lambda body", "function body", "resource property",
                                                  "condition of conditional", "decorator allowed", "type value")]
    out += [run_case(c) for c in matrix(pos if tier == "thorough" else pos[:4], fr)]
    # concrete kinds of arguments in every place (the opaque arguments cover their values, this covers their syntax)
    forms = [f for f in X.main_forms("z")]
    keep = {"quoted", "quoted empty", "zero", "integer", "false", "true", "null", "empty array", "empty object", "identifier",
            "interpolated", "multi-line", "built-in call without arguments", "property access", "operator ==", "unary -",
            "object inline", "array inline", "lambda", "conditional"}
    forms = [f for f in forms if f.name in keep]
    if tier != "thorough":
        forms = [f for f in forms if f.name in ("quoted", "quoted empty", "zero", "false", "null", "empty array", "empty object")]
    for name, (_, _, arities) in TB.FUNCTIONS.items():
        for k in arities:
            for i in range(k):
                for f in forms:
                    args = [f if j == i else E(f"g{j}") for j in range(k)]
                    fr1 = CO.call_frag(name, name, args, [a.val for a in args])
                    out.append(run_case(Case(f"{name}/{k} argument {i + 1} {f.name}", v.segs(fr1), v.want(fr1))))
            for f in forms:
                if k:
                    fr1 = CO.call_frag(name, name, [f] * k, [f.val] * k)
                    out.append(run_case(Case(f"{name}/{k} all arguments {f.name}", v.segs(fr1), v.want(fr1))))
    # layout between arguments
    for name, (_, _, arities) in TB.FUNCTIONS.items():
        for k in arities:
            if k < 1:
                continue
            es = [E(f"g{i}") for i in range(k)]
            for nm, a, b, c in (("lines", "\n  ", ",\n  ", "\n"), ("no blanks", "", ",", ""), ("blanks", " ", " , ", " ")):
                segs = [f"{name}({a}"]
                for i, e in enumerate(es):
                    segs += [b if i else "", e]
                f1 = Frag([*segs, f"{c})"], lambda name=name, es=es: TB.call(name, [e.val() for e in es]))
                out.append(run_case(Case(f"{name}/{k} {nm}", v.segs(f1), v.want(f1))))
    # built-ins inside of each other
    names = list(TB.FUNCTIONS)
    for a, b in zip(names, names[1:] + names[:1]) if tier != "thorough" else itertools.product(names, names):
        ka, kb = max(TB.FUNCTIONS[a][2]), max(TB.FUNCTIONS[b][2])
        if not ka:
            continue
        ies = [E(f"h{i}") for i in range(kb)]
        inner = CO.call_frag(b, b, ies, [e.val for e in ies])
        args = [E(f"g{i}") for i in range(ka)]
        args[ka // 2] = inner
        f1 = CO.call_frag(a, a, args, [x.val for x in args])
        out.append(run_case(Case(f"{b} inside of {a}", v.segs(f1), v.want(f1))))
    out += [run_case(c) for c in LO.built_ins(tier) + LO.nestings(tier, ("built-in calls",))]
    return out


OTHER_NAMES = (
    "map", "reduce", "sort", "toObject", "items", "objectKeys", "shallowMerge", "groupBy", "mapValues", "cidrHost", "cidrSubnet",
    "parseCidr", "getSecret2", "toLogicalZone", "deployer", "fail", "buildUri", "parseUri", "nameof", "loadDirectoryFileInfo",
    "providers", "pickzones", "resourceid", "ResourceId", "resource_id", "Length", "LENGTH", "lengthOf", "length2", "leng",
    "minValue", "maxx", "date_time_add", "dateTime", "utcnow", "base64_func", "max_func", "int_func", "string_func", "listKeys2",
    "listAccountSas", "listSecrets", "list", "listkeys", "ListKeys", "__init__", "keys", "get", "pop", "clear", "update", "a", "A1",
    "x", "z9", "if2", "iff", "ifElse", "forEach", "inList", "existingThing", "resources", "sysLength", "azure", "sys1", "az_x",
    "true1", "nullable", "unknown_func", "UNKNOWN_FUNCTION", "operator", "function", "unknown", "lambda", "class", "None", "ünused",
)


@check("C08", "a built-in called through its namespace is recorded like the plain call, every other call under exactly the name "
       "as written with all arguments in order",
       INTERP + SCAN + "All built-ins x both namespaces x all permitted argument counts, every other name as a hole and as 70 "
       "near misses, with zero to six opaque arguments.",
       ["the table of built-ins (bsa/tables.py) restates Bicep's documentation"])
def c08(tier):
    v = CO.variable_position()
    out = [run_case(c) for c in matrix([v], CO.function_frags("g", ("ns",)))]
    for name, (space, _, arities) in TB.FUNCTIONS.items():
        other = "az" if space == "sys" else "sys"
        for k in range(0, 7 if tier == "thorough" else 4):
            es = [E(f"g{i}") for i in range(k)]
            f1 = CO.call_frag(f"{other}.{name}", f"{other}.{name}", es, [e.val for e in es])
            out.append(run_case(Case(f"{f1.name} is not a built-in", v.segs(f1), v.want(f1))))
    hole_names = [(F("u"), "any"), ]
    for k in range(0, 9 if tier == "thorough" else 7):
        es = [E(f"g{i}") for i in range(k)]
        for h, _ in hole_names:
            for pre in ("", "sys.", "az."):
                f1 = Frag([pre, h, "(", *[x for i, e in enumerate(es) for x in ((", " if i else ""), e)], ")"],
                          lambda h=h, es=es, pre=pre: TB.call(st(pre, h), [e.val() for e in es]))
                c = Case(f"{pre}any other function/{k}", v.segs(f1), v.want(f1))
                out.append(run_case(c))
                if k < 3:
                    out.append(lex_case(c, ("F",)))
        for n in OTHER_NAMES:
            if n in TB.FUNCTIONS or not n.isascii() or n == "items":
                continue
            for pre in ("", "sys.", "az.") if k == 1 else ("",):
                f1 = CO.call_frag(f"{pre}{n}", f"{pre}{n}", es, [e.val for e in es])
                out.append(run_case(Case(f"{pre}{n}/{k}", v.segs(f1), v.want(f1))))
    # near misses of every built-in
    for n in TB.FUNCTIONS:
        for m in {n + "x", n + "1", n + "_", "_" + n, n.lower(), n.upper(), n[:-1], n[0].upper() + n[1:], TB.FUNCTIONS[n][1] + "_"}:
            if m in TB.FUNCTIONS or len(m) < 2 or m in ("if", "for", "in"):
                continue
            for k in (0, 1, 2):
                es = [E(f"g{i}") for i in range(k)]
                f1 = CO.call_frag(m, m, es, [e.val for e in es])
                out.append(run_case(Case(f"near miss {m}/{k}", v.segs(f1), v.want(f1))))
    # in every position
    e, h = E("g0"), F("u")
    fs = [Frag([h, "(", e, ")"], lambda: TB.call(st(h), [e.val()]), "other call"),
          CO.call_frag("sys.toLower", "toLower", [e], [e.val]), CO.call_frag("az.resourceId", "resourceId", [e, E("g1")], [e.val, E("g1").val])]
    out += [run_case(c) for c in matrix(X.positions(), fs)]
    out += [run_case(c) for c in LO.built_ins(tier, True) + LO.unknown_calls(tier) + LO.nestings(tier, ("unknown calls",))]
    return out


# --------------------------------------------------------------------------- C09
@check("C09", "every operator is recorded under its own kind with its operands unchanged, in order, under the documented names",
       INTERP + "All operators and accessors with opaque operands in every statement position, every kind of operand literal on "
       "either side of every operator, blanks and no blanks around operators, zero to four arguments of accessor calls.")
def c09(tier):
    v = CO.variable_position()
    ops = X.operators("o") + X.accessors("o")
    pos = X.positions() if tier == "thorough" else X.statement_positions() + X.inner_positions()[:20]
    out = [run_case(c) for c in matrix(pos, ops)]
    side = [p for p in X.inner_positions() if p.tags & {"operand", "accessor"} or "conditional" in p.name
            or p.name in ("true value", "false value")]
    forms = [f for f in X.main_forms("z") if "lambda" not in f.tags]
    out += [run_case(c) for c in matrix(side, forms)]
    # spelling without blanks
    a, b, c3 = E("o1"), E("o2"), E("o3")
    for op in TB.BINARY:
        for nm, l, r in (("tight", "", ""), ("left blank", " ", ""), ("right blank", "", " "), ("many blanks", "   ", "\t ")):
            f1 = Frag([a, l, op, r, b], lambda op=op: TB.binary(op, a.val(), b.val()))
            out.append(run_case(Case(f"{op} {nm}", v.segs(f1), v.want(f1))))
        f1 = Frag(["5", op, "3"], lambda op=op: TB.binary(op, 5, 3))
        out.append(run_case(Case(f"5{op}3", v.segs(f1), v.want(f1))))
        f1 = Frag(["'a'", op, "'b'"], lambda op=op: TB.binary(op, "a", "b"))
        out.append(run_case(Case(f"'a'{op}'b'", v.segs(f1), v.want(f1))))
        f1 = Frag(["(", a, ")", op, "(", b, ")"], lambda op=op: TB.binary(op, a.val(), b.val()))
        out.append(run_case(Case(f"(a){op}(b)", v.segs(f1), v.want(f1))))
        # equal operands
        f1 = Frag([a, f" {op} ", a], lambda op=op: TB.binary(op, a.val(), a.val()))
        out.append(run_case(Case(f"equal operands of {op}", v.segs(f1), v.want(f1))))
    for op in TB.UNARY:
        for nm, g in (("tight", ""), ("blank", " ")):
            for x in (a, I("oi"), N("on")):
                f1 = Frag([op, g, x], lambda op=op, x=x: TB.unary(op, x.val() if isinstance(x, E) else el(x) if x.kind == "I" else num(x)))
                out.append(run_case(Case(f"unary {op} {nm} {getattr(x, 'kind', 'E')}", v.segs(f1), v.want(f1))))
    f1 = Frag(["!", "!", a], lambda: TB.unary("!", TB.unary("!", a.val())))
    out.append(run_case(Case("double negation", v.segs(f1), v.want(f1))))
    f1 = Frag(["-(-", a, ")"], lambda: TB.unary("-", TB.unary("-", a.val())))
    out.append(run_case(Case("minus minus", v.segs(f1), v.want(f1))))
    # accessor calls
    kinds = [f for f in X.atoms("z") if f.name in ("quoted", "quoted empty", "zero", "integer", "false", "null", "empty array",
                                                   "empty object", "identifier", "true")]
    for fn in ("listKeys", "getSecret", "listAccountSas", "ListKeys", "list", "listX"):
        for k in range(5):
            es = [E(f"m{i}") for i in range(k)]
            f1 = Frag([a, f".{fn}(", *[x for i, e in enumerate(es) for x in ((", " if i else ""), e)], ")"],
                      lambda fn=fn, es=es: TB.method(a.val(), fn, [e.val() for e in es]))
            out.append(run_case(Case(f".{fn}/{k}", v.segs(f1), v.want(f1))))
            for i in range(k):
                for f in kinds:
                    args = [f if j == i else es[j] for j in range(k)]
                    f1 = Frag([a, f".{fn}(", *[x for j, y in enumerate(args) for x in ((", " if j else ""), y)], ")"],
                              lambda fn=fn, args=args: TB.method(a.val(), fn, [y.val() for y in args]))
                    out.append(run_case(Case(f".{fn}/{k} argument {i + 1} {f.name}", v.segs(f1), v.want(f1))))
    k = I("oq")
    for nm, segs, val in (
            ("safe property", [a, ".?", k], lambda: TB.prop(a.val(), el(k))),
            ("safe index", [a, "[?", b, "]"], lambda: TB.index(a.val(), b.val())),
            ("non-null assertion", [a, "!"], lambda: a.val()),
            ("index by number", [a, "[0]"], lambda: TB.index(a.val(), 0)),
            ("index by text", [a, "['", S("ox"), "']"], lambda: TB.index(a.val(), st(S("ox")))),
    ):
        f1 = Frag(segs, val)
        out.append(run_case(Case(nm, v.segs(f1), v.want(f1), classes=True)))
    out += [run_case(c) for c in LO.methods(tier) + LO.nestings(tier, ("negations", "sums", "sums to the left", "conditionals", "alternatives", "defaults"))]
    return out


# --------------------------------------------------------------------------- C10
LEVEL = {"*": 9, "/": 9, "%": 9, "+": 8, "-": 8, "<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6, "!=": 6, "=~": 6, "!~": 6, "&&": 5,
         "||": 4, "??": 3}


class Op:
    """an operator as a function of operands; prec: 12 accessor, 11 unary, 3..9 binary, 1 conditional"""

    def __init__(self, name, n, segs, val, prec, hole_first=True):
        self.name, self.n, self.segs, self.val, self.prec, self.hole_first = name, n, segs, val, prec, hole_first


def op_list():
    out = []
    for op in TB.BINARY:
        out.append(Op(op, 2, lambda x, op=op: [x[0], f" {op} ", x[1]], lambda x, op=op: TB.binary(op, *x), LEVEL[op]))
    for op in TB.UNARY:
        out.append(Op("unary " + op, 1, lambda x, op=op: [op, x[0]], lambda x, op=op: TB.unary(op, *x), 11))
    out.append(Op("?:", 3, lambda x: [x[0], " ? ", x[1], " : ", x[2]], lambda x: TB.ternary(*x), 1))
    out.append(Op(".p", 1, lambda x: [x[0], ".", I("gp")], lambda x: TB.prop(x[0], el(I("gp"))), 12))
    out.append(Op("[0]", 1, lambda x: [x[0], "[0]"], lambda x: TB.index(x[0], 0), 12))
    out.append(Op(".listKeys()", 1, lambda x: [x[0], ".listKeys()"], lambda x: TB.method(x[0], "listKeys", []), 12))
    out.append(Op("::n", 1, lambda x: [x[0], "::", I("gp")], lambda x: TB.nested(x[0], el(I("gp"))), 12))
    return out


def open_ends(op, i):
    """is operand i of the operator at its left (-1) or right (+1) end, or enclosed (0)"""
    if op.prec == 12:
        return -1
    if op.prec == 11:
        return 1
    if i == 0:
        return -1
    if i == op.n - 1:
        return 1
    return 0


def needs_parens(outer, i, inner):
    """does inner as operand i of outer need parentheses to be grouped that way in Bicep"""
    end = open_ends(outer, i)
    if end == 0:
        return False
    if inner.prec == 11 and outer.prec <= 11:
        return False
    if inner.prec == 12:
        return False
    if inner.prec > outer.prec:
        return False
    if inner.prec < outer.prec:
        return True
    if inner.prec == 1:  # conditional: right associative
        return end == -1
    return end == 1  # binary: left associative


def grouping(v):
    """compact text of an operator tree"""
    if isinstance(v, dict) and list(map(str, v)) == ["operator"] and isinstance(v["operator"], dict) and isinstance(
            v["operator"].get("operands"), dict):
        o = v["operator"]
        return f"{o.get('type')}({', '.join(grouping(x) for x in o['operands'].values())})"
    return spec.show(v)


def judge_grouping(case, p, o, want):
    if o.status != "ok":
        yield J.raised(o)
        return
    ds = spec.compare(o.value, want)
    if ds:
        sec = [x for x in o.value if x != "globals"]
        try:
            got, exp = (grouping(next(iter(v[sec[0]].values())).get("value")) for v in (o.value, want))
        except Exception:
            got, exp = spec.show(o.value), spec.show(want)
        if got == exp:
            got, exp = ds[0].got, ds[0].want
        yield got, f"grouped as {got}, should be {exp}", ds[0].loc


GROUPED = ("negations", "sums", "sums to the left", "conditionals", "alternatives", "defaults", "mixed")


@check("C10", "operands in parentheses are grouped as written, others by Bicep's precedence and associativity",
       INTERP + "All ordered pairs of the 23 operators and accessors x all operand places, with parentheses, with doubled ones and "
       "(where Bicep's precedence gives the same grouping) without; chains of three parenthesised operators.",
       ["precedence levels as in Bicep's parser (bsa/checks2.py LEVEL)"])
def c10(tier):
    v = CO.variable_position()
    out = []
    ops = op_list()
    for o in ops:
        for q in ops:
            for i in range(o.n):
                xs = [E(f"x{j}") for j in range(o.n)]
                ys = [E(f"y{j}") for j in range(q.n)]
                inner = q.segs(ys)

                def val(o=o, q=q, i=i, xs=xs, ys=ys):
                    a = [x.val() for x in xs]
                    a[i] = q.val([y.val() for y in ys])
                    return o.val(a)
                for nm, l, r in (("(", "(", ")"), ("((", "((", "))"), ("( ", "( ", " )")):
                    segs = list(xs)
                    segs[i] = [l, *inner, r]
                    f1 = Frag(o.segs(segs), val)
                    out.append(run_case(Case(f"{nm}{q.name}) as operand {i + 1} of {o.name}", v.segs(f1), v.want(f1), judge=judge_grouping)))
                if not needs_parens(o, i, q):
                    segs = list(xs)
                    segs[i] = inner
                    f1 = Frag(o.segs(segs), val)
                    out.append(run_case(Case(f"bare {q.name} as operand {i + 1} of {o.name}", v.segs(f1), v.want(f1), judge=judge_grouping)))
    # parentheses around operands that do not need them, on both sides
    for o in ops:
        xs = [E(f"x{j}") for j in range(o.n)]
        f1 = Frag(o.segs([["(", x, ")"] for x in xs]), lambda o=o, xs=xs: o.val([x.val() for x in xs]))
        out.append(run_case(Case(f"parenthesised operands of {o.name}", v.segs(f1), v.want(f1), judge=judge_grouping)))
        f1 = Frag(["(", *spec.flat(o.segs(xs)), ")"], lambda o=o, xs=xs: o.val([x.val() for x in xs]))
        for p in X.statement_positions()[:8]:
            out.append(run_case(Case(f"({o.name}) as {p.name}", p.segs(f1), p.want(f1), judge=judge_grouping)))
    few = ops if tier == "thorough" else [o for o in ops if o.name in ("==", "&&", "+", "*", "-", "unary !", "?:", ".p", "[0]", "??")]
    for o, q, s in itertools.product(few, repeat=3):
        xs = [E(f"x{j}") for j in range(o.n)]
        ys = [E(f"y{j}") for j in range(q.n)]
        zs = [E(f"w{j}") for j in range(s.n)]
        a, b = list(xs), list(ys)
        b[-1] = ["(", *spec.flat(s.segs(zs)), ")"]
        a[0] = ["(", *spec.flat(q.segs(b)), ")"]

        def val3(o=o, q=q, s=s, xs=xs, ys=ys, zs=zs):
            yv = [y.val() for y in ys]
            yv[-1] = s.val([z.val() for z in zs])
            xv = [x.val() for x in xs]
            xv[0] = q.val(yv)
            return o.val(xv)
        f1 = Frag(o.segs(a), val3)
        out.append(run_case(Case(f"({q.name} ({s.name})) {o.name}", v.segs(f1), v.want(f1), judge=judge_grouping)))
    out += [run_case(J.only(c, judge_grouping)) for c in LO.nestings(tier, GROUPED)]
    return out


# --------------------------------------------------------------------------- C12
def loop_heads(n):
    """(name, text, loop type) for a source"""
    x, i = I(n + "x"), I(n + "i")
    return [
        ("array", lambda s: ["for ", x, " in ", s, ":"], lambda v: X.arr(st(x), v)),
        ("indexed", lambda s: ["for (", x, ", ", i, ") in ", s, ":"], lambda v: X.arri(st(x), st(i), v)),
        ("object", lambda s: ["for ", x, " in items (", s, "):"], lambda v: X.obj(st(x), v)),
        ("items()", lambda s: ["for ", x, " in items(", s, "):"], lambda v: X.arr(st(x), TB.call("items", [v]))),
        ("range()", lambda s: ["for ", x, " in range(0, ", s, "):"], lambda v: X.arr(st(x), TB.call("range", [0, v]))),
    ]


def loop_places(n):
    """(name, text, result): places a loop may stand in; object says that the body must be an object"""
    v, o, r, m, c = I(n + "v"), I(n + "o"), ST.IP(n + "r"), I(n + "m"), ST.IP(n + "c")
    a = E(n + "oa")
    res = ["resource ", r, " 'Zq.Ns/t@1' = "]
    mod = ["module ", m, " './zq.bicep' = "]
    return [
        ("variable", lambda t: ["var ", v, " = ", *t, "\n"], lambda x: X.doc(X.var(st(v), x)), False),
        ("typed variable", lambda t: ["var ", v, " array = ", *t, "\n"], lambda x: X.doc(X.var(st(v), x, "array")), False),
        ("output", lambda t: ["output ", o, " array = ", *t, "\n"], lambda x: X.doc(X.output(st(o), x, "array")), False),
        ("property", lambda t: [*res, "{\n  zk: ", *t, "\n}\n"], lambda x: X.doc(X.resource(st(r), "Zq.Ns/t", "1", {"zk": x})), False),
        ("property between others", lambda t: [*res, "{\n  zj: ", a, "\n  zk: ", *t, "\n  zl: 1\n}\n"],
         lambda x: X.doc(X.resource(st(r), "Zq.Ns/t", "1", {"zj": a.val(), "zk": x, "zl": 1})), False),
        ("module property", lambda t: [*mod, "{\n  zk: {\n    zl: ", *t, "\n  }\n}\n"],
         lambda x: X.doc(X.module(st(m), "./zq.bicep", {"zk": {"zl": x}})), False),
        ("variable property", lambda t: ["var ", v, " = {\n  zk: ", *t, "\n}\n"], lambda x: X.doc(X.var(st(v), {"zk": x})), False),
        ("resource", lambda t: [*res, *t, "\n"], lambda x: X.doc(X.resource(st(r), "Zq.Ns/t", "1", x)), True),
        ("existing resource", lambda t: [*res[:-1], " 'Zq.Ns/t@1' existing = ", *t, "\n"],
         lambda x: X.doc(X.resource(st(r), "Zq.Ns/t", "1", x, True)), True),
        ("module", lambda t: [*mod, *t, "\n"], lambda x: X.doc(X.module(st(m), "./zq.bicep", x)), True),
        ("child resource", lambda t: [*res, "{\n  resource ", c, " 'zc' = ", *t, "\n}\n"],
         lambda x: X.doc(X.resource(st(r), "Zq.Ns/t", "1", {}),
                         X.resource(st(r, "__", c), "Zq.Ns/t/zc", "1", {**x, "depends_on": [el(r)]})), True),
    ]


def body_forms(n):
    a, b, k = E(n + "a"), E(n + "b"), I(n + "k")
    return [
        Frag(["{\n  ", k, ": ", a, "\n}"], lambda: {st(k): a.val()}, "object", tags=("object",)),
        Frag("{}", {}, "empty object", tags=("object",)),
        Frag(["{ zk: ", a, ", zl: ", b, " }"], lambda: {"zk": a.val(), "zl": b.val()}, "inline object", tags=("object",)),
    ]


@check("C12", "loops, conditional deployments and lambdas are recorded with all their components, each in its own field",
       INTERP + "All loop heads x all places a loop is allowed in x source expressions of every shape x bodies x filters, layout "
       "inside of the brackets, nested loops; conditions of every shape on resources, modules, children and loops; lambdas with one "
       "to four variables, nested, in every argument place.")
def c12(tier):
    out = []
    heads, places = loop_heads("l"), loop_places("p")
    sources = [f for f in X.main_forms("z")]
    bodies = body_forms("b")
    free = [f for f in X.main_forms("y")]
    src, flt = E("ls"), E("lf")
    bare = [Frag([src], src.val, "any")]
    layouts = [("", " ", "")] + [("\n  ", "\n  ", "\n"), ("", "  ", "")]

    def one(place, head, s, body, cond=None, lay=("", " ", "")):
        hn, ht, hv = head
        pn, pt, pw, _ = place
        t = ["[", lay[0], *ht(s), lay[1], *(["if(", cond, ") "] if cond else []), *body.segs, lay[2], "]"]

        def want():
            return pw(X.loop(hv(s.val()), body.val(), cond.val() if cond else None))
        return Case(f"{hn} loop over {s.name} in {pn}, body {body.name}{', filter ' + cond.name if cond else ''} {lay[0]!r}{lay[1]!r}",
                    spec.flat(pt(t)), want)

    anyf = Frag([flt], flt.val, "any")
    for place in places:
        for head in heads:
            for s in bare:
                wide = tier == "thorough" or head[0] in ("array", "object") and place[0] in ("variable", "output", "property")
                for b in bodies + (free if wide and not place[3] else []):
                    for c in (None, anyf):
                        if c is not None and b.bare:
                            b2 = X.paren(b)
                        else:
                            b2 = b
                        if c is not None and "lambda" in b.tags:
                            continue
                        out.append(run_case(one(place, head, s, b2, c)))
            for s in sources:
                if "lambda" in s.tags or not (wide or place[0] in ("resource", "child resource")):
                    continue
                b = bodies[0]
                out.append(run_case(one(place, head, s, b)))
                if tier == "thorough" or place[3]:
                    out.append(run_case(one(place, head, s, b, anyf)))
                    out.append(run_case(one(place, head, bare[0], b, s)))
            for lay in layouts[1:2]:
                out.append(run_case(one(place, (head[0], lambda s, h=head: h[1](s), head[2]), bare[0], bodies[0], None, (lay[0], " ", lay[2]))))
    # nested loops
    for h1, h2 in itertools.product(heads, repeat=2):
        hh = loop_heads("m")[heads.index(h2)]
        inner_src, inner = E("is"), bodies[0]
        t2 = ["[", *hh[1](inner_src), " ", *inner.segs, "]"]
        f2 = Frag(["{\n  zk: ", *t2, "\n}"], lambda hh=hh, inner=inner: {"zk": X.loop(hh[2](inner_src.val()), inner.val())}, "nested loop")
        for place in places:
            out.append(run_case(one(place, h1, bare[0], f2)))
            if h1[0] == "array":
                out.append(run_case(one(place, h1, bare[0], f2, anyf)))
    # conditions
    r, m, c = ST.IP("cr"), I("cm"), ST.IP("cc")
    for f in X.main_forms("z") + [X.paren(f) for f in X.few_operators("z")]:
        if "lambda" in f.tags:
            continue
        for b in bodies:
            out.append(run_case(Case(f"resource if ({f.name}) {b.name}", ["resource ", r, " 'Zq.Ns/t@1' = if (", *f.segs, ") ", *b.segs, "\n"],
                                     lambda f=f, b=b: X.doc(X.resource(st(r), "Zq.Ns/t", "1", {"condition": f.val(), "config": b.val()})))))
            out.append(run_case(Case(f"module if ({f.name}) {b.name}", ["module ", m, " './zq.bicep' = if(", *f.segs, ") ", *b.segs, "\n"],
                                     lambda f=f, b=b: X.doc(X.module(st(m), "./zq.bicep", {"condition": f.val(), "config": b.val()})))))
            out.append(run_case(Case(f"child if ({f.name}) {b.name}", [
                "resource ", r, " 'Zq.Ns/t@1' = {\n  resource ", c, " 'zc' existing = if (", *f.segs, ") ", *b.segs, "\n}\n"],
                lambda f=f, b=b: X.doc(X.resource(st(r), "Zq.Ns/t", "1", {}), X.resource(st(r, "__", c), "Zq.Ns/t/zc", "1", {
                    "condition": f.val(), "config": b.val(), "depends_on": [el(r)]}, True)))))
    # lambdas
    v = CO.variable_position()
    for k in (1, 2, 3, 4):
        xs = [I(f"lv{i}") for i in range(k)]
        head = [*xs] if k == 1 else []
        for body in X.main_forms("z"):
            b2 = body
            for paren in ((False, True) if k == 1 else (True,)):
                h = ["(", *[y for i, x in enumerate(xs) for y in ((", " if i else ""), x)], ")"] if paren else head
                for nm, pre, post, wrap in (
                        ("only argument", ["zqf("], [")"], lambda e: TB.call("zqf", [e])),
                        ("last argument", ["map(", E("la"), ", "], [")"], lambda e: TB.call("map", [E("la").val(), e])),
                        ("argument of filter", ["filter(", E("la"), ", "], [")"], lambda e: TB.call("filter", [E("la").val(), e])),
                        ("middle argument", ["reduce(", E("la"), ", "], [", ", E("lb"), ")"],
                         lambda e: TB.call("reduce", [E("la").val(), e, E("lb").val()]))):
                    f1 = Frag([*pre, *h, " => ", *b2.segs, *post], lambda wrap=wrap, xs=xs, b2=b2: wrap(X.lam(b2.val(), *[st(x) for x in xs])))
                    if tier == "thorough" or k < 3 or nm == "only argument":
                        out.append(run_case(Case(f"{k} {'(' if paren else ''}variables, {nm}, body {b2.name}", v.segs(f1), v.want(f1))))
    x, y, e = I("lx"), I("ly"), E("le")
    f1 = Frag(["zqf(", x, " => ", y, " => ", e, ")"], lambda: TB.call("zqf", [X.lam(X.lam(e.val(), st(y)), st(x))]))
    out.append(run_case(Case("lambda in lambda", v.segs(f1), v.want(f1))))
    f1 = Frag(["zqf(", x, " => (", y, " => ", e, "))"], lambda: TB.call("zqf", [X.lam(X.lam(e.val(), st(y)), st(x))]))
    out.append(run_case(Case("lambda in parentheses in lambda", v.segs(f1), v.want(f1))))
    f1 = Frag(["zqf(", x, " => zqg(", e, ", (", x, ", ", y, ") => ", x, "))"],
              lambda: TB.call("zqf", [X.lam(TB.call("zqg", [e.val(), X.lam(el(x), st(x), st(y))]), st(x))]))
    out.append(run_case(Case("lambda in call in lambda", v.segs(f1), v.want(f1))))
    out += [run_case(c) for c in LO.lambdas(tier) + LO.nestings(tier, ("lambdas", "loops"))]
    return out


# --------------------------------------------------------------------------- C14
SEGMENT = r"[a-z0-9]+([._-][a-z0-9]+)*"


def Q(name, pattern, rep, minus=None):
    k = ("Q", pattern, minus)
    if k not in spec._langs:
        d = spec.L(pattern)
        spec._langs[k] = (d - R.words(minus)).minimize() if minus else d
    return hole(name, "Q", spec._langs[k], rep)


def references():
    """well-formed references: (name, segments, type, detail without full)"""
    path = Q("mp", f"{SEGMENT}(/{SEGMENT})*", "bicep/modules/x-y.z")
    tag = Q("mt", r"[A-Za-z0-9_][A-Za-z0-9_.-]*", "v1.0")
    reg = Q("mr", r"[a-zA-Z0-9]+", "exampleregistry")
    alias = Q("ma", r"[A-Za-z0-9_-]+", "CoreModules", "public")
    sub = Q("ms", r"[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}", "11111111-2222-3333-4444-55555555aaff")
    rg = Q("mg", r"[A-Za-z0-9_.()-]+", "test-rg")
    name = Q("mn", r"[A-Za-z0-9_.()-]+", "storage.Spec")
    ver = Q("mv", r"[A-Za-z0-9_][A-Za-z0-9_.()-]*", "1.0") if False else Q("mv", r"[A-Za-z0-9_][A-Za-z0-9_.-]*", "1.0")
    return [
        ("private registry", ["br:"], [reg, ".azurecr.io/", path, ":", tag], "bicep_registry",
         lambda: {"registry_name": st(reg), "path": st(path), "tag": st(tag), "public": False}, [reg, path, tag]),
        ("public registry", ["br:"], ["mcr.microsoft.com/", path, ":", tag], "bicep_registry",
         lambda: {"registry_name": "mcr.microsoft.com", "path": st(path), "tag": st(tag), "public": True}, [path, tag]),
        ("registry alias", ["br/"], [alias, ":", path, ":", tag], "bicep_registry_alias",
         lambda: {"alias": st(alias), "path": st(path), "tag": st(tag), "public": False}, [alias, path, tag]),
        ("public alias", ["br/"], ["public:", path, ":", tag], "bicep_registry_alias",
         lambda: {"alias": "public", "path": st(path), "tag": st(tag), "public": True}, [path, tag]),
        ("template spec", ["ts:"], [sub, "/", rg, "/", name, ":", ver], "template_spec",
         lambda: {"subscription_id": st(sub), "resource_group_id": st(rg), "name": st(name), "version": st(ver)}, [sub, rg, name, ver]),
        ("template spec alias", ["ts/"], [alias, ":", Q("mpn", r"[A-Za-z0-9_.-]+", "storageSpec"), ":", ver], "template_spec_alias",
         lambda: {"alias": st(alias), "path": st(Q("mpn", r"[A-Za-z0-9_.-]+", "storageSpec")), "tag": st(ver)},
         [alias, Q("mpn", r"[A-Za-z0-9_.-]+", "storageSpec"), ver]),
    ]


def module_text(ref, body="{}", pre=()):
    m = I("mm")
    return [*pre, "module ", m, " '", *ref, "' = ", *spec.flat(body), "\n"]


def module_entry(kind, full, detail, config=None):
    return ("modules", st(I("mm")), {"decorators": [], "type": kind, "detail": {"full": full, **detail}, "config": config or {}})


def module_cases():
    """(case, holes) of well-formed references"""
    out = []
    for name, pre, rest, kind, detail, hs in references():
        out.append((Case(name, module_text([*pre, *rest]),
                         lambda rest=rest, kind=kind, detail=detail: X.doc(module_entry(kind, st(*rest), detail()))), hs))
    p = ST.PATH("ml")
    out.append((Case("local path", module_text([p]), lambda: X.doc(module_entry("local", st(p), {"path": st(p)}))), [p]))
    return out


@check("C14", "a module reference is classified by its prefix and split into exactly its pieces, a malformed one is rejected; a "
       "resource type is split at its @",
       INTERP + "Well-formed references of all seven classes as languages (automata segmentation of the patterns decides that "
       "every group is exactly its piece), everything that lacks a piece as a language that must be rejected.",
       ["well-formed: registry names [a-zA-Z0-9]+ below azurecr.io, OCI path segments and tags, aliases [A-Za-z0-9_-]+, GUIDs"])
def c14(tier):
    out = []
    refs = references()
    for c, hs in module_cases():
        out.append(run_case(c))
        out.append(lex_case(c, ("Q", "P")))
    a, e = E("mb"), E("mc")
    for name, pre, rest, kind, detail, hs in refs + [("local path", [], [ST.PATH("ml")], "local", lambda: {"path": st(ST.PATH("ml"))}, [])]:
        full = [*rest]

        def entry(cfg, kind=kind, full=full, detail=detail):
            return X.doc(module_entry(kind, st(*full), detail(), cfg))
        out.append(run_case(Case(f"{name} with body", module_text([*pre, *rest], ["{\n  zk: ", a, "\n}"]),
                                 lambda entry=entry: entry({"zk": a.val()}))))
        out.append(run_case(Case(f"{name} with condition", module_text([*pre, *rest], ["if (", e, ") {\n  zk: ", a, "\n}"]),
                                 lambda entry=entry: entry({"condition": e.val(), "config": {"zk": a.val()}}))))
        out.append(run_case(Case(f"{name} in a loop", module_text([*pre, *rest], ["[for ", I("mx"), " in ", e, ": {\n  zk: ", a, "\n}]"]),
                                 lambda entry=entry: entry(X.loop(X.arr(st(I("mx")), e.val()), {"zk": a.val()})))))
        # all ordered pairs of classes in one file
        for n2, pre2, rest2, kind2, detail2, hs2 in refs:
            m2 = I("mm2")

            def both(entry=entry, kind2=kind2, rest2=rest2, detail2=detail2, m2=m2):
                d = entry({})
                d["modules"][st(m2)] = module_entry(kind2, st(*rest2), detail2())[2]
                return d
            out.append(run_case(Case(f"{name}, then {n2}", [*module_text([*pre, *rest]), "module ", m2, " '", *pre2, *rest2, "' = {}\n"], both)))
    # typical texts
    for text, kind, full, detail in CONCRETE:
        out.append(run_case(Case(f"reference {text}", module_text([text]),
                                 lambda kind=kind, full=full, detail=detail: X.doc(module_entry(kind, full, detail)))))
    # pieces missing
    plain = r"[^'\\$\n\r]*"
    for pre, ok in (("br:", r"[^/]+/[^:]+:.+"), ("br/", r"[^:]+:[^:]+:.+"), ("ts:", r"[^/]+/[^/]+/[^:]+:.+"), ("ts/", r"[^:]+:[^:]+:.+")):
        bad = (spec.L(plain) - R.lang(ok)).minimize()
        h = hole("bad" + pre, "Q", bad, "zq")
        out.append(run_case(Case(f"{pre} with missing pieces", module_text([pre, h]), spec.Reject(), limit=600)))
    for text in MALFORMED:
        out.append(run_case(Case(f"malformed {text}", module_text([text]), spec.Reject())))
        out.append(run_case(Case(f"malformed {text} among others", [*module_text(["./a.bicep"]), *["var zq = 1\n"],
                                                                   *[x if x is not I("mm") else "zqm2" for x in module_text([text])]],
                                 spec.Reject())))
    for name, pre, rest, kind, detail, hs in refs:
        for tail in (" ", "#", "?", "!", "@", ":", "/", "*", ",", "+", "=", "%", "~", "|", "[", ")", ":more", " more", "\t"):
            if kind == "template_spec" and tail == ")":
                continue
            out.append(run_case(Case(f"{name} followed by {tail!r}", module_text([*pre, *rest, tail]), spec.Reject())))
        for head in (" ", "/", ":", "#", "@"):
            out.append(run_case(Case(f"{name} with {head!r} after the prefix", module_text([*pre, head, *rest]), spec.Reject())))
    for c in unusual_references():
        out.append(run_case(c))
    # resource types
    r = ST.IP("rt")
    t, v = ST.TN("rt"), ST.VN("rt")
    for ex in (False, True):
        for bn, bs, bw in ST.bodies("rt"):
            c = Case(f"resource type, {'existing ' if ex else ''}{bn}", ["resource ", r, " '", t, "@", v, "'", " existing" if ex else "", " = ", *bs, "\n"],
                     lambda bw=bw, ex=ex: X.doc(X.resource(st(r), st(t), st(v), bw(), ex)))
            out.append(run_case(c))
            if bn in ("body", "loop"):
                out.append(lex_case(c, ("K", "V")))
    for text, ty, ver in (("Microsoft.Storage/storageAccounts@2021-02-01", "Microsoft.Storage/storageAccounts", "2021-02-01"),
                          ("a.b/c/d/e@2020-01-01-preview", "a.b/c/d/e", "2020-01-01-preview"), ("x@y", "x", "y")):
        out.append(run_case(Case(f"resource type {text}", ["resource ", r, " '", text, "' = {}\n"],
                                 lambda ty=ty, ver=ver: X.doc(X.resource(st(r), ty, ver, {})))))
    no_at = hole("noat", "K", spec.L(ST.TYPE_TEXT), "Zq.Ns/t")
    out.append(run_case(Case("resource type without version", ["resource ", r, " '", no_at, "' = {}\n"], spec.Reject())))
    out.append(run_case(Case("resource type with two versions", ["resource ", r, " '", no_at, "@", no_at, "@", no_at, "' = {}\n"], spec.Reject())))
    return out


def judge_exact_or_rejected(case, p, o, want):
    if o.status == "ok":
        yield from spec.default_judge(case, p, o, want)


def unusual_references():
    """pieces of any characters: whatever is accepted is split at the separators"""
    def anycase(t):
        return "".join(f"[{c.lower()}{c.upper()}]" if c.isalpha() else "\\" + c for c in t)

    def wide(n, cls, minus=None):
        d = spec.L(rf"[^'\\$\n\r{cls}]+")
        return hole(n, "Q", (d - minus).minimize() if minus is not None else d, "zq")
    taken = R.lang(rf"{anycase('mcr.microsoft.com')}|.*{anycase('.azurecr.io')}")
    host, path, tag = wide("uh", ":/", taken), wide("up", ":"), wide("ut", ":/")
    alias, piece, sub, rg = wide("ua", ":/", R.words("public")), wide("us", ":/"), wide("ub", ":/"), wide("ug", ":/")
    for name, pre, rest, kind, detail in (
            ("any registry", "br:", [host, "/", path, ":", tag], "bicep_registry",
             lambda: {"registry_name": st(host), "path": st(path), "tag": st(tag), "public": False}),
            ("any private registry", "br:", [piece, ".azurecr.io/", path, ":", tag], "bicep_registry",
             lambda: {"registry_name": st(piece), "path": st(path), "tag": st(tag), "public": False}),
            ("any path in the public registry", "br:", ["mcr.microsoft.com/", path, ":", tag], "bicep_registry",
             lambda: {"registry_name": "mcr.microsoft.com", "path": st(path), "tag": st(tag), "public": True}),
            ("any alias", "br/", [alias, ":", path, ":", tag], "bicep_registry_alias",
             lambda: {"alias": st(alias), "path": st(path), "tag": st(tag), "public": False}),
            ("any path of the public alias", "br/", ["public:", path, ":", tag], "bicep_registry_alias",
             lambda: {"alias": "public", "path": st(path), "tag": st(tag), "public": True}),
            ("any template spec", "ts:", [sub, "/", rg, "/", piece, ":", tag], "template_spec",
             lambda: {"subscription_id": st(sub), "resource_group_id": st(rg), "name": st(piece), "version": st(tag)}),
            ("any template spec alias", "ts/", [alias, ":", piece, ":", tag], "template_spec_alias",
             lambda: {"alias": st(alias), "path": st(piece), "tag": st(tag)})):
        yield Case(f"{name}, exact or rejected", module_text([pre, *rest]),
                   lambda rest=rest, kind=kind, detail=detail: X.doc(module_entry(kind, st(*rest), detail())), limit=600,
                   judge=judge_exact_or_rejected)


CONCRETE = [
    ("br:exampleregistry.azurecr.io/bicep/modules/storage:v1", "bicep_registry", "exampleregistry.azurecr.io/bicep/modules/storage:v1",
     {"registry_name": "exampleregistry", "path": "bicep/modules/storage", "tag": "v1", "public": False}),
    ("br:mcr.microsoft.com/bicep/avm/res/storage/storage-account:0.9.1", "bicep_registry",
     "mcr.microsoft.com/bicep/avm/res/storage/storage-account:0.9.1",
     {"registry_name": "mcr.microsoft.com", "path": "bicep/avm/res/storage/storage-account", "tag": "0.9.1", "public": True}),
    ("br/public:avm/res/network/vnet:1.0.2-rc.1", "bicep_registry_alias", "public:avm/res/network/vnet:1.0.2-rc.1",
     {"alias": "public", "path": "avm/res/network/vnet", "tag": "1.0.2-rc.1", "public": True}),
    ("br/publicX:a:1", "bicep_registry_alias", "publicX:a:1", {"alias": "publicX", "path": "a", "tag": "1", "public": False}),
    ("br/Public:a:1", "bicep_registry_alias", "Public:a:1", {"alias": "Public", "path": "a", "tag": "1", "public": False}),
    ("ts:1a2b3c4d-0000-1111-2222-abcdefABCDEF/rg-(1)/spec_x:1.0a", "template_spec", "1a2b3c4d-0000-1111-2222-abcdefABCDEF/rg-(1)/spec_x:1.0a",
     {"subscription_id": "1a2b3c4d-0000-1111-2222-abcdefABCDEF", "resource_group_id": "rg-(1)", "name": "spec_x", "version": "1.0a"}),
    ("ts/my-specs:spec:2", "template_spec_alias", "my-specs:spec:2", {"alias": "my-specs", "path": "spec", "tag": "2"}),
    ("br.bicep", "local", "br.bicep", {"path": "br.bicep"}), ("ts", "local", "ts", {"path": "ts"}),
    ("../br/x.bicep", "local", "../br/x.bicep", {"path": "../br/x.bicep"}), ("br", "local", "br", {"path": "br"}),
    ("tsx:a/b/c:d", "local", "tsx:a/b/c:d", {"path": "tsx:a/b/c:d"}), ("abr:x.azurecr.io/a:1", "local", "abr:x.azurecr.io/a:1", {"path": "abr:x.azurecr.io/a:1"}),
]
MALFORMED = ["br:", "br/", "ts:", "ts/", "br::", "br/::", "br:x", "br:x.azurecr.io", "br:x.azurecr.io/", "br:x.azurecr.io/a", "br:x.azurecr.io/a:",
             "br:.azurecr.io/a:1", "br:x.azurecr.io:1", "br:mcr.microsoft.com", "br:mcr.microsoft.com/", "br:mcr.microsoft.com/a", "br:mcr.microsoft.com/:1",
             "br:mcr.microsoft.com/a:", "br:mcrXmicrosoft.com/a:1", "br:xazurecr.io/a:1", "br:xXazurecr.io/a:1", "br:x.azurecrXio/a:1",
             "br/a", "br/a:", "br/a:b", "br/a:b:", "br/:b:c", "br/a::c", "br/public", "br/public:a",
             "ts:a", "ts:1/2", "ts:1/2/3", "ts:1/2/3:", "ts:/2/3:4", "ts:1//3:4", "ts:1/2/:4", "ts:x y/2/3:4", "ts/a", "ts/a:b", "ts/a:b:", "ts/:b:c", "ts/a::c"]


