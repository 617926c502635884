"""Expression forms, the positions expressions can stand in, and statement templates."""
from __future__ import annotations

from . import tables as T
from .spec import E, F, Frag, I, M, M1, N, S, SI, el, flat, num, st

SCOPE = {"scope": {"value": "resourceGroup"}}


def doc(*entries, scope="resourceGroup"):
    """a whole result; entries are (section, name, attributes)"""
    r: dict = {"globals": {"scope": {"value": scope}}}
    for sec, name, attrs in entries:
        r.setdefault(sec, {})[name] = attrs
    return r


def param(name, type_="string", default=None, decorators=()):
    return "parameters", name, {"decorators": list(decorators), "type": type_, "default": default}


def var(name, value, type_=None, decorators=()):
    d = {"decorators": list(decorators), "value": value}
    if type_ is not None:
        d["type"] = type_
    return "variables", name, d


def output(name, value, type_="string", decorators=()):
    return "outputs", name, {"decorators": list(decorators), "type": type_, "value": value}


def resource(name, type_, api, config, existing=False, decorators=()):
    return "resources", name, {"decorators": list(decorators), "type": type_, "api_version": api, "existing": existing,
                               "config": config}


def module(name, path, config, decorators=()):
    return "modules", name, {"decorators": list(decorators), "type": "local", "detail": {"full": path, "path": path},
                             "config": config}


def custom_type(name, value, decorators=()):
    return "types", name, {"decorators": list(decorators), "value": value}


def func(name, args, type_, expression, decorators=()):
    return "functions", name, {"decorators": list(decorators), "args": args, "type": type_, "expression": expression}


def array_t(t, n=1):
    for _ in range(n):
        t = {"type": "array", "item_type": t}
    return t


def union_t(*ms):
    return {"type": "union", "members": list(ms)}


# --------------------------------------------------------------------------- expression forms
def atoms(n):
    k, o = I(n + "k"), I(n + "o")
    a, b = E(n + "a"), E(n + "b")
    return [
        Frag(I(n + "i"), lambda: el(I(n + "i")), "identifier", tags=("atom", "string")),
        Frag(["'", S(n), "'"], lambda: st(S(n)), "quoted", tags=("atom", "string")),
        Frag("''", "", "quoted empty", tags=("atom", "string")),
        Frag("'zqb.c'", "zqb.c", "quoted dotted", tags=("atom", "string")),
        Frag("'zqb'", "zqb", "quoted word", tags=("atom", "string")),
        Frag(["'", SI(n), "'"], lambda: st(SI(n)), "interpolated", tags=("atom", "string")),
        Frag(["'${", I(n + "p"), "}'"], lambda: st("${", I(n + "p"), "}"), "interpolation only", tags=("atom", "string")),
        Frag(["'''\n", M(n), "'''"], lambda: st(M(n)), "multi-line", tags=("atom", "string", "ml")),
        Frag(["'''", M1(n), "'''"], lambda: st(M1(n)), "multi-line inline", tags=("atom", "string", "ml")),
        Frag("''''''", "", "multi-line empty", tags=("atom", "string", "ml")),
        Frag(N(n), lambda: num(N(n)), "integer", tags=("atom",)),
        Frag("0", 0, "zero", tags=("atom",)),
        Frag("true", True, "true", tags=("atom",)),
        Frag("false", False, "false", tags=("atom",)),
        Frag("null", None, "null", tags=("atom",)),
        Frag("[]", [], "empty array"),
        Frag(["[", a, "]"], lambda: [a.val()], "array of one"),
        Frag(["[", a, ", ", b, "]"], lambda: [a.val(), b.val()], "array inline"),
        Frag(["[\n  ", a, "\n  ", b, "\n]"], lambda: [a.val(), b.val()], "array multi-line"),
        Frag("{}", {}, "empty object"),
        Frag(["{ ", k, ": ", a, ", ", o, ": ", b, " }"], lambda: {st(k): a.val(), st(o): b.val()}, "object inline"),
        Frag(["{\n  ", k, ": ", a, "\n  ", o, ": ", b, "\n}"], lambda: {st(k): a.val(), st(o): b.val()},
             "object multi-line"),
        Frag([F(n), "()"], lambda: T.call(st(F(n)), []), "call without arguments"),
        Frag([F(n), "(", a, ")"], lambda: T.call(st(F(n)), [a.val()]), "call with one argument"),
        Frag([F(n), "(", a, ", ", b, ")"], lambda: T.call(st(F(n)), [a.val(), b.val()]), "call with two arguments"),
        Frag(["length(", a, ")"], lambda: T.call("length", [a.val()]), "built-in call"),
        Frag("deployment()", {"function": {"type": "deployment"}}, "built-in call without arguments"),
        Frag(["sys.contains(", a, ", ", b, ")"], lambda: T.call("contains", [a.val(), b.val()]), "namespaced call"),
    ]


def accessors(n):
    a, b = E(n + "a"), E(n + "b")
    k = I(n + "q")
    return [
        Frag([a, ".", k], lambda: T.prop(a.val(), el(k)), "property access", tags=("tight", "chain")),
        Frag([a, "[", b, "]"], lambda: T.index(a.val(), b.val()), "index access", tags=("tight",)),
        Frag([a, "::", k], lambda: T.nested(a.val(), el(k)), "nested resource access", tags=("tight", "chain")),
        Frag([a, ".listKeys()"], lambda: T.method(a.val(), "listKeys", []), "method call", tags=("tight",)),
        Frag([a, ".getSecret(", b, ")"], lambda: T.method(a.val(), "getSecret", [b.val()]), "method call with argument",
             tags=("tight",)),
    ]


def operators(n, ops=None):
    a, b, c = E(n + "a"), E(n + "b"), E(n + "c")
    out = []
    for op in ops or T.BINARY:
        out.append(Frag([a, f" {op} ", b], lambda op=op: T.binary(op, a.val(), b.val()), f"operator {op}", bare=True))
    for op in T.UNARY:
        out.append(Frag([op, a], lambda op=op: T.unary(op, a.val()), f"unary {op}", bare=True))
    out.append(Frag([a, " ? ", b, " : ", c], lambda: T.ternary(a.val(), b.val(), c.val()), "conditional", bare=True))
    return out


def lambdas(n):
    a = E(n + "a")
    x, y = I(n + "x"), I(n + "y")
    return [
        Frag([x, " => ", a], lambda: {"type": "lambda_expression", "detail": {"var_1": st(x), "expression": a.val()}},
             "lambda", bare=True, tags=("lambda",)),
        Frag(["(", x, ") => ", a],
             lambda: {"type": "lambda_expression", "detail": {"var_1": st(x), "expression": a.val()}},
             "lambda in parentheses", bare=True, tags=("lambda",)),
        Frag(["(", x, ", ", y, ") => ", a],
             lambda: {"type": "lambda_expression", "detail": {"var_1": st(x), "var_2": st(y), "expression": a.val()}},
             "lambda with two variables", bare=True, tags=("lambda",)),
    ]


def paren(f):
    return Frag(["(", f, ")"], f.val, f"({f.name})", tags=f.tags | {"paren"})


def few_operators(n):
    return [f for f in operators(n, ("==", "&&", "??", "+", "-", "*", "<"))]


def all_forms(n):
    return (atoms(n) + accessors(n) + operators(n) + lambdas(n)
            + [paren(f) for f in operators(n)] + [paren(f) for f in atoms(n) if "atom" in f.tags or f.name.startswith("arr")])


def main_forms(n):
    """one of every shape"""
    return atoms(n) + accessors(n) + few_operators(n) + lambdas(n)[:1] + [
        paren(f) for f in few_operators(n)[:1] + few_operators(n)[-2:]]


# --------------------------------------------------------------------------- positions
class Pos:
    """a place for an expression: text around it and the result around its value"""

    def __init__(self, name, pre, post, wrap, bare=True, tags=(), no=()):
        self.name, self.pre, self.post, self.wrap = name, flat(pre), flat(post), wrap
        self.bare = bare  # operators may stand there without parentheses
        self.tags = frozenset(tags)
        self.no = frozenset(no)

    def segs(self, f):
        if not self.bare and (f.bare or "chain" in f.tags):
            f = paren(f)
        return [*self.pre, *f.segs, *self.post]

    def want(self, f):
        return lambda: self.wrap(f.val())


def vpos(name, pre, post, wrap, **kw):
    """a position inside of a variable's value"""
    v = I("v")
    return Pos(name, ["var ", v, " = ", *flat(pre)], [*flat(post), "\n"], lambda x: doc(var(st(v), wrap(x))), **kw)


def statement_positions():
    p, v, o, t, f, r, m, x, d = (I(c) for c in "pvotfrmxd")
    a, b = E("pa"), E("pb")
    res = ["resource ", r, " 'Zq.Ns/things@2020-01-01' = "]
    mod = ["module ", m, " './zq.bicep' = "]

    def rdoc(c):
        return doc(resource(st(r), "Zq.Ns/things", "2020-01-01", c))

    def mdoc(c):
        return doc(module(st(m), "./zq.bicep", c))

    out = [
        Pos("parameter default", ["param ", p, " string = "], "\n", lambda e: doc(param(st(p), default=e))),
        Pos("variable value", ["var ", v, " = "], "\n", lambda e: doc(var(st(v), e))),
        Pos("typed variable value", ["var ", v, " string = "], "\n", lambda e: doc(var(st(v), e, "string"))),
        Pos("output value", ["output ", o, " string = "], "\n", lambda e: doc(output(st(o), e))),
        Pos("type value", ["type ", t, " = "], "\n", lambda e: doc(custom_type(st(t), e))),
        Pos("function body", ["func ", f, "() string => "], "\n", lambda e: doc(func(st(f), {}, "string", e))),
        Pos("resource property", [*res, "{\n  zk: "], "\n}\n", lambda e: rdoc({"zk": e})),
        Pos("module property", [*mod, "{\n  zk: "], "\n}\n", lambda e: mdoc({"zk": e})),
        Pos("nested property", [*res, "{\n  zk: {\n    zl: "], "\n    zm: 1\n  }\n}\n",
            lambda e: rdoc({"zk": {"zl": e, "zm": 1}})),
        Pos("extension configuration", ["extension ", x, " with {\n  zk: "], "\n}\n",
            lambda e: doc(("extensions", st(x), {"config": {"zk": e}}))),
        Pos("resource condition", [*res, "if ("], [") {\n  zk: ", a, "\n}\n"],
            lambda e: rdoc({"condition": e, "config": {"zk": a.val()}}), tags=("condition",)),
        Pos("module condition", [*mod, "if ("], [") {\n  zk: ", a, "\n}\n"],
            lambda e: mdoc({"condition": e, "config": {"zk": a.val()}}), tags=("condition",)),
        Pos("resource loop source", [*res, "[for ", x, " in "], [": {\n  zk: ", a, "\n}]\n"],
            lambda e: rdoc(loop(arr(st(x), e), {"zk": a.val()})), tags=("loop",)),
        Pos("module loop source", [*mod, "[for ", x, " in "], [": {\n  zk: ", a, "\n}]\n"],
            lambda e: mdoc(loop(arr(st(x), e), {"zk": a.val()})), tags=("loop",)),
        Pos("resource indexed loop source", [*res, "[for (", x, ", ", d, ") in "], [": {\n  zk: ", a, "\n}]\n"],
            lambda e: rdoc(loop(arri(st(x), st(d), e), {"zk": a.val()})), tags=("loop",)),
        Pos("loop property", [*res, "[for ", x, " in ", b, ": {\n  zk: "], ["\n}]\n"],
            lambda e: rdoc(loop(arr(st(x), b.val()), {"zk": e})), tags=("loop",)),
        Pos("loop filter", [*res, "[for ", x, " in ", b, ": if("], [") {\n  zk: ", a, "\n}]\n"],
            lambda e: rdoc(loop(arr(st(x), b.val()), {"zk": a.val()}, e)), tags=("loop", "condition")),
        Pos("conditional property", [*res, "if (", b, ") {\n  zk: "], ["\n}\n"],
            lambda e: rdoc({"condition": b.val(), "config": {"zk": e}})),
        Pos("output loop source", ["output ", o, " array = [for ", x, " in "], [": ", a, "]\n"],
            lambda e: doc(output(st(o), loop(arr(st(x), e), a.val()), "array")), tags=("loop",)),
        Pos("output loop body", ["output ", o, " array = [for ", x, " in ", b, ": "], ["]\n"],
            lambda e: doc(output(st(o), loop(arr(st(x), b.val()), e), "array")), tags=("loop",)),
        Pos("property loop source", [*res, "{\n  zk: [for ", x, " in "], [": ", a, "]\n}\n"],
            lambda e: rdoc({"zk": loop(arr(st(x), e), a.val())}), tags=("loop",)),
        Pos("property loop body", [*res, "{\n  zk: [for ", x, " in ", b, ": "], ["]\n}\n"],
            lambda e: rdoc({"zk": loop(arr(st(x), b.val()), e)}), tags=("loop",)),
    ]
    for name, (ty, arg) in T.DECORATORS.items():
        if arg:
            out.append(Pos(f"decorator {name}", [f"@{name}("], [")\nparam ", p, " string\n"],
                           lambda e, ty=ty: doc(param(st(p), decorators=[{"type": ty, "argument": bound(ty, e)}])),
                           tags=("decorator",)))
    out.append(Pos("unknown decorator", ["@zqdeco("], [")\nparam ", p, " string\n"],
                   lambda e: doc(param(st(p), decorators=[{"type": "zqdeco", "argument": e}])), tags=("decorator",)))
    return out


def bound(ty, e):
    """numeric bounds are recorded as numbers, with their sign"""
    if ty in ("min_value", "max_value"):
        from . import dom
        from .spec import Sym
        x = e
        if isinstance(x, Sym):
            r = dom.resolved(x)
            x = r[0] if r else x
        if isinstance(x, dict) and len(x) == 1 and type(next(iter(x))) is str and "operator" in x:
            o = x["operator"]
            if isinstance(o, dict) and o.get("type") == "minus":
                v = o["operands"]["integer_value"]
                if isinstance(v, Sym):
                    r = dom.resolved(v)
                    v = r[0] if r else v
                if isinstance(v, (int, dom.AInt)) and not isinstance(v, bool):
                    return dom.int_op("Sub", 0, v)
    return e


def loop(loop_type, config, condition=None):
    return {"loop_type": loop_type, "condition": condition, "config": config}


def arr(item, src):
    return {"type": "array", "detail": {"item_name": item, "array_name": src}}


def arri(item, idx, src):
    return {"type": "array_index", "detail": {"item_name": item, "index_name": idx, "array_name": src}}


def obj(item, src):
    return {"type": "object", "detail": {"item_name": item, "object_name": src}}


def lam(e, *names):
    return {"type": "lambda_expression",
            "detail": {**{f"var_{i + 1}": n for i, n in enumerate(names)}, "expression": e}}


def inner_positions():
    a, b, c = E("na"), E("nb"), E("nc")
    k, x, y, d = I("k"), I("x"), I("y"), I("d")
    out = [
        vpos("parentheses", "(", ")", lambda e: e),
        vpos("non-null assertion", "(", ")!", lambda e: e),
        vpos("only array item", "[", "]", lambda e: [e], tags=("item",)),
        vpos("first of inline array", "[", [", ", a, "]"], lambda e: [e, a.val()], tags=("item",)),
        vpos("last of inline array", ["[", a, ", "], "]", lambda e: [a.val(), e], tags=("item",)),
        vpos("only line of array", "[\n  ", "\n]", lambda e: [e], tags=("item",)),
        vpos("first line of array", "[\n  ", ["\n  ", a, "\n]"], lambda e: [e, a.val()], tags=("item",)),
        vpos("middle line of array", ["[\n  ", a, "\n  "], ["\n  ", b, "\n]"], lambda e: [a.val(), e, b.val()], tags=("item",)),
        vpos("last line of array", ["[\n  ", a, "\n  "], "\n]", lambda e: [a.val(), e], tags=("item",)),
        vpos("object value", "{ zk: ", " }", lambda e: {"zk": e}, tags=("pair",)),
        vpos("first object value", "{\n  zk: ", ["\n  zl: ", a, "\n}"], lambda e: {"zk": e, "zl": a.val()}, tags=("pair",)),
        vpos("last object value", ["{\n  zk: ", a, "\n  zl: "], "\n}", lambda e: {"zk": a.val(), "zl": e}, tags=("pair",)),
        vpos("value of quoted key", "{\n  'zk-1': ", "\n}", lambda e: {"'zk-1'": e}, tags=("pair",)),
        vpos("only argument", "zqf(", ")", lambda e: T.call("zqf", [e])),
        vpos("first argument", "zqf(", [", ", a, ")"], lambda e: T.call("zqf", [e, a.val()])),
        vpos("last argument", ["zqf(", a, ", "], ")", lambda e: T.call("zqf", [a.val(), e])),
        vpos("argument on its own line", "zqf(\n  ", [",\n  ", a, "\n)"], lambda e: T.call("zqf", [e, a.val()]), tags=("item",)),
        vpos("argument of a built-in", ["contains(", a, ", "], ")", lambda e: T.call("contains", [a.val(), e])),
        vpos("interior argument", ["zqf(", a, ", "], [", ", b, ")"], lambda e: T.call("zqf", [a.val(), e, b.val()])),
        vpos("condition of conditional", "", [" ? ", a, " : ", b], lambda e: T.ternary(e, a.val(), b.val()), bare=False),
        vpos("true value", [a, " ? "], [" : ", b], lambda e: T.ternary(a.val(), e, b.val()), bare=False),
        vpos("false value", [a, " ? ", b, " : "], "", lambda e: T.ternary(a.val(), b.val(), e), bare=False),
        vpos("lambda body", ["zqf(", x, " => "], ")", lambda e: T.call("zqf", [lam(e, st(x))]), bare=False),
        vpos("body of lambda with two variables", ["zqf((", x, ", ", y, ") => "], ")",
             lambda e: T.call("zqf", [lam(e, st(x), st(y))]), bare=False),
        vpos("loop source", ["[for ", x, " in "], [": ", a, "]"], lambda e: loop(arr(st(x), e), a.val()), tags=("loop",)),
        vpos("indexed loop source", ["[for (", x, ", ", d, ") in "], [": ", a, "]"],
             lambda e: loop(arri(st(x), st(d), e), a.val()), tags=("loop",)),
        vpos("items() loop source", ["[for ", x, " in items("], ["): ", a, "]"],
             lambda e: loop(arr(st(x), T.call("items", [e])), a.val()), tags=("loop",)),
        vpos("object loop source", ["[for ", x, " in items ("], ["): ", a, "]"], lambda e: loop(obj(st(x), e), a.val()),
             tags=("loop",)),
        vpos("loop body", ["[for ", x, " in ", a, ": "], "]", lambda e: loop(arr(st(x), a.val()), e), tags=("loop",)),
        vpos("body of indexed loop", ["[for (", x, ", ", d, ") in ", a, ": "], "]",
             lambda e: loop(arri(st(x), st(d), a.val()), e), tags=("loop",)),
        vpos("body of object loop", ["[for ", x, " in items (", a, "): "], "]", lambda e: loop(obj(st(x), a.val()), e),
             tags=("loop",)),
        vpos("filter of loop", ["[for ", x, " in ", a, ": if("], [") ", b, "]"],
             lambda e: loop(arr(st(x), a.val()), b.val(), e), tags=("loop", "condition")),
        vpos("body of filtered loop", ["[for ", x, " in ", a, ": if(", b, ") "], "]",
             lambda e: loop(arr(st(x), a.val()), e, b.val()), bare=False, tags=("loop",)),
        vpos("index", [a, "["], "]", lambda e: T.index(a.val(), e), tags=("accessor",)),
        vpos("safe index", [a, "[?"], "]", lambda e: T.index(a.val(), e), tags=("accessor",)),
        vpos("method argument", [a, ".getSecret("], ")", lambda e: T.method(a.val(), "getSecret", [e]), tags=("accessor",)),
        vpos("first method argument", [a, ".listKeys("], [", ", b, ")"], lambda e: T.method(a.val(), "listKeys", [e, b.val()]),
             tags=("accessor",)),
        vpos("last method argument", [a, ".listKeys(", b, ", "], ")", lambda e: T.method(a.val(), "listKeys", [b.val(), e]),
             tags=("accessor",)),
        vpos("interpolated neighbour", ["['${", k, "}', "], "]", lambda e: [st("${", k, "}"), e], tags=("item",)),
    ]
    for op in T.BINARY:
        out.append(vpos(f"left of {op}", "", [f" {op} ", a], lambda e, op=op: T.binary(op, e, a.val()), bare=False,
                        tags=("operand",)))
        out.append(vpos(f"right of {op}", [a, f" {op} "], "", lambda e, op=op: T.binary(op, a.val(), e), bare=False,
                        tags=("operand",)))
    for op in T.UNARY:
        out.append(vpos(f"operand of unary {op}", op, "", lambda e, op=op: T.unary(op, e), bare=False, tags=("operand",)))
    out += [
        vpos("indexed value", "(", [")[", a, "]"], lambda e: T.index(e, a.val()), tags=("accessor",)),
        vpos("object of property", "(", [").", k], lambda e: T.prop(e, el(k)), tags=("accessor",)),
        vpos("object of safe property", "(", [").?", k], lambda e: T.prop(e, el(k)), tags=("accessor",)),
        vpos("parent of nested resource", "(", [")::", k], lambda e: T.nested(e, el(k)), tags=("accessor",)),
        vpos("object of method", "(", [").listKeys(", a, ")"], lambda e: T.method(e, "listKeys", [a.val()]),
             tags=("accessor",)),
    ]
    return out


def positions():
    return statement_positions() + inner_positions()
