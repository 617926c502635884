"""Long lists and deep nestings: constructs that repeat a part many times.

The counts are a fixed ladder plus every integer literal of the package's own source and its neighbours: a branch on a
number of parts can only be a comparison with such a number (or with a part of it, which the ladder catches).
"""
from __future__ import annotations

import ast

from . import corpus as CO, forms as X, spec, statements as ST, tables as TB
from .spec import Case, E, Frag, I, N, S, el, num, st

LADDER = (7, 8, 9, 10, 11, 12, 16, 17, 21, 33, 65)
CAP = {"quick": 1100, "thorough": 5000}


def folded(n):
    """the value of a constant integer expression"""
    if isinstance(n, ast.Constant):
        return n.value if type(n.value) is int else None
    if isinstance(n, ast.BinOp) and type(n.op) in FOLD:
        a, b = folded(n.left), folded(n.right)
        if a is not None and b is not None and abs(a) < 10000 and 0 <= b < 10000 and not (isinstance(n.op, ast.Pow) and b > 12):
            return FOLD[type(n.op)](a, b)
    return None


FOLD = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Pow: lambda a, b: a ** b,
        ast.LShift: lambda a, b: a << min(b, 20)}


def literals():
    """the integers written in the package"""
    out = set()
    for path in spec.W.files():
        for n in ast.walk(spec.W.tree_of(path)):
            v = folded(n)
            if v is not None:
                out.add(v)
    return out


def counts(tier, lo=7, cap=None):
    cap = cap or CAP.get(tier, 1100)
    out = set(LADDER) | ({100, 129, 257} if tier == "thorough" else set())
    for v in literals():
        if v >= 5:
            out |= {v - 1, v, v + 1, v + 2, v + 3, v + 4}
    return sorted(n for n in out if lo <= n <= cap)


def sep(items, by):
    out = []
    for i, x in enumerate(items):
        out += [by if i else "", *(x if isinstance(x, list) else [x])]
    return out


def es(n, tag="lo"):
    return [E(f"{tag}{i}") for i in range(n)]


def vcase(frag):
    v = CO.variable_position()
    return Case(f"variable value / {frag.name}", v.segs(frag), v.want(frag))


def variadic():
    return [n for n, (_, _, ar) in TB.FUNCTIONS.items() if max(ar, default=0) == 6]


def call(name, n, ns=False):
    space, ty, ar = TB.FUNCTIONS[name]
    args = es(n)
    f = ar[max(ar)]
    written = f"{space}.{name}" if ns else name
    return Frag([f"{written}(", *sep(args, ", "), ")"],
                lambda: {"function": {"type": ty, "parameters": f([a.val() for a in args])}}, f"{written} with {n} arguments")


def built_ins(tier, ns=False):
    return [vcase(call(name, n, ns)) for name in variadic() for n in counts(tier)]


def unknown_calls(tier):
    out = []
    for n in counts(tier):
        args = es(n)
        for name in ("zqfunc", "map"):
            out.append(vcase(Frag([f"{name}(", *sep(args, ", "), ")"], lambda args=args, name=name: TB.call(name, [a.val() for a in args]),
                                  f"{name} with {n} arguments")))
    return out


def methods(tier):
    out = []
    for n in counts(tier):
        a, args = E("la"), es(n)
        out.append(vcase(Frag([a, ".getSecret(", *sep(args, ", "), ")"],
                              lambda args=args: TB.method(a.val(), "getSecret", [x.val() for x in args]), f"method with {n} arguments")))
    return out


def containers(tier):
    out = []
    for n in counts(tier):
        items = es(n)
        ids = [I(f"li{i}") for i in range(n)]
        out.append(vcase(Frag(["[\n  ", *sep(items, "\n  "), "\n]"], lambda items=items: [a.val() for a in items], f"array of {n} items")))
        out.append(vcase(Frag(["[", *sep(items, ", "), "]"], lambda items=items: [a.val() for a in items], f"array of {n} items on one line")))
        out.append(vcase(Frag(["[\n  ", *sep(ids, "\n  "), "\n]"], lambda ids=ids: [el(a) for a in ids], f"array of {n} identifiers")))
        out.append(vcase(Frag(["{\n  ", *sep([[f"zk{i}: ", a] for i, a in enumerate(items)], "\n  "), "\n}"],
                              lambda items=items: {f"zk{i}": a.val() for i, a in enumerate(items)}, f"object of {n} keys")))
        for w in ("resource", "module"):
            body = ["{\n  ", *sep([[f"zk{i}: ", a] for i, a in enumerate(items)], "\n  "), "\n}"]
            head = "'zq/t@1'" if w == "resource" else "'zq.bicep'"

            def want(items=items, w=w):
                conf = {f"zk{i}": a.val() for i, a in enumerate(items)}
                return [X.resource("zqr", "zq/t", "1", conf) if w == "resource" else X.module("zqr", "zq.bicep", conf)]
            out.append(ST.file_case(f"{w} of {n} properties", [ST.Stmt(w, [f"{w} zqr {head} = ", *body], want)]))
    return out


def nestings(tier, only=None):
    """parts inside of parts"""
    out = []
    for n in counts(tier, 5, 40 if tier != "thorough" else 70):
        e = E("ln")

        def wrap(pre, post, f, n=n):
            segs = []

            def val():
                v = e.val()
                for i in reversed(range(n)):
                    v = f(v, i)
                return v
            for i in range(n):
                segs.append(pre(i))
            segs.append(e)
            for i in reversed(range(n)):
                segs.append(post(i))
            return segs, val
        q = {
            "arrays": (lambda i: "[", lambda i: "]", lambda v, i: [v]),
            "objects": (lambda i: f"{{\n zk{i}: ", lambda i: "\n}", lambda v, i: {f"zk{i}": v}),
            "unknown calls": (lambda i: f"zqf{i}(", lambda i: ")", lambda v, i: TB.call(f"zqf{i}", [v])),
            "built-in calls": (lambda i: "length(", lambda i: ")", lambda v, i: TB.call("length", [v])),
            "mixed": (lambda i: ("[", "zqf(", "{\n zk: ", "(zqa == ")[i % 4], lambda i: ("]", ")", "\n}", ")")[i % 4],
                      lambda v, i: ([v], TB.call("zqf", [v]), {"zk": v}, TB.binary("==", el("zqa"), v))[i % 4]),
            "negations": (lambda i: "!(", lambda i: ")", lambda v, i: TB.unary("!", v)),
            "sums": (lambda i: f"zqa{i} + (", lambda i: ")", lambda v, i: TB.binary("+", el(f"zqa{i}"), v)),
            "sums to the left": (lambda i: "(", lambda i: f") + zqa{i}", lambda v, i: TB.binary("+", v, el(f"zqa{i}"))),
            "conditionals": (lambda i: f"zqa{i} ? zqb{i} : (", lambda i: ")", lambda v, i: TB.ternary(el(f"zqa{i}"), el(f"zqb{i}"), v)),
            "alternatives": (lambda i: f"zqa{i} || (", lambda i: ")", lambda v, i: TB.binary("||", el(f"zqa{i}"), v)),
            "defaults": (lambda i: f"zqa{i} ?? (", lambda i: ")", lambda v, i: TB.binary("??", el(f"zqa{i}"), v)),
            "lambdas": (lambda i: f"map(zqa{i}, zqx{i} => ", lambda i: ")",
                        lambda v, i: TB.call("map", [el(f"zqa{i}"), {"type": "lambda_expression", "detail": {"var_1": f"zqx{i}", "expression": v}}])),
            "loops": (lambda i: f"[for zqx{i} in zqs{i}: {{\n zk: ", lambda i: "\n}]", lambda v, i: X.loop(X.arr(f"zqx{i}", el(f"zqs{i}")), {"zk": v})),
        }
        for k, (pre, post, f) in q.items():
            segs, val = wrap(pre, post, f)
            if only is None or k in only:
                out.append(vcase(Frag(segs, val, f"{n} nested {k}")))
    return out


def decorators(tier):
    out = []
    for n in counts(tier, cap=70):
        for nm, ds in (("different", [Deco(i) for i in range(n)]), ("equal", [Deco(0)] * n)):
            s = ST.one_each("z")
            for x in s:
                if x.kind in ("param", "resource", "func"):
                    out.append(ST.file_case(f"{n} {nm} decorators on {x.name}", [ST.with_decorators(x, ds)]))
    return out


def Deco(i):
    e = E(f"lod{i}")
    name = ("description", "zqdeco", "allowed", "metadata")[i % 4]
    return ST.Deco(f"{name}", [f"@{name}(", e, ")"], lambda: {"type": name, "argument": e.val()})


def maker():
    """the i-th statement of every kind"""
    e = E("lov")
    return {
        "metadata": lambda i: ST.Stmt("metadata", [f"metadata zm{i} = 'zq{i}'"], lambda: [("metadata", f"zm{i}", {"value": f"zq{i}"})]),
        "param": lambda i: ST.Stmt("param", [f"param zp{i} string"], lambda: [X.param(f"zp{i}", "string", None)]),
        "var": lambda i: ST.Stmt("var", [f"var zv{i} = ", e], lambda: [X.var(f"zv{i}", e.val())]),
        "output": lambda i: ST.Stmt("output", [f"output zo{i} int = ", e], lambda: [X.output(f"zo{i}", e.val(), "int")]),
        "resource": lambda i: ST.Stmt("resource", [f"resource zr{i} 'zq/t@1' = {{}}"], lambda: [X.resource(f"zr{i}", "zq/t", "1", {})]),
        "module": lambda i: ST.Stmt("module", [f"module zo{i} 'zq{i}.bicep' = {{}}"], lambda: [X.module(f"zo{i}", f"zq{i}.bicep", {})]),
        "type": lambda i: ST.Stmt("type", [f"type zt{i} = ", e], lambda: [X.custom_type(f"zt{i}", e.val())]),
        "func": lambda i: ST.Stmt("func", [f"func zf{i}() string => ", e], lambda: [X.func(f"zf{i}", {}, "string", e.val())]),
        "extension": lambda i: ST.Stmt("extension", [f"extension zx{i}"], lambda: [("extensions", f"zx{i}", {})]),
        "import": lambda i: ST.Stmt("import", [f"import {{zi{i}}} from 'zq{i}.bicep'"],
                                    lambda: [("imports", f"zi{i}", {"file_path": f"zq{i}.bicep"})]),
        "resource with child": lambda i: ST.Stmt("resource", [f"resource zw{i} 'zq/t@1' = {{\n resource zc 'u' = {{}}\n}}"],
                                                 lambda: [X.resource(f"zw{i}", "zq/t", "1", {}),
                                                          X.resource(f"zw{i}__zc", "zq/t/u", "1", {"depends_on": [el(f"zw{i}")]})]),
    }


def statements(tier):
    """many declarations of one kind, and of all kinds"""
    out = []
    make = maker()
    for n in counts(tier):
        for k, f in make.items():
            out.append(ST.file_case(f"{n} x {k}", [f(i) for i in range(n)]))
        out.append(ST.file_case(f"{n} of all kinds", [list(make.values())[i % len(make)](i) for i in range(n)]))
    return out


def parts(tier):
    """statements with many parts"""
    out = []
    for n in counts(tier):
        e = E("lop")
        segs = ["func zqf("]
        segs += sep([[f"za{i} ", ("string", "int[]", "zqt")[i % 3]] for i in range(n)], ", ")
        tys = ("string", {"type": "array", "item_type": "int"}, "zqt")
        out.append(ST.file_case(f"func with {n} parameters", [ST.Stmt("func", [*segs, ") string => ", e], lambda n=n: [
            X.func("zqf", {f"za{i}": tys[i % 3] for i in range(n)}, "string", e.val())])]))
        out.append(ST.file_case(f"import of {n} names", [ST.Stmt("import", [
            "import {", *sep([f"za{i}" + (f" as zb{i}" if i % 2 else "") for i in range(n)], ", "), "} from 'zq.bicep'"],
            lambda n=n: [("imports", f"za{i}", {"file_path": "zq.bicep", **({"alias": f"zb{i}"} if i % 2 else {})}) for i in range(n)])]))
    return out


def lambdas(tier):
    out = []
    for n in counts(tier, 5):
        e = E("lol")
        names = [f"zx{i}" for i in range(n)]
        f = Frag(["map(zqs, (", ", ".join(names), ") => ", e, ")"], lambda names=names: TB.call("map", [el("zqs"), X.lam(e.val(), *names)]),
                 f"lambda with {n} variables")
        out.append(vcase(f))
    return out


def types(tier):
    out = []

    def case(nm, segs, val):
        out.append(ST.file_case(nm, [ST.Stmt("param", ["param zqp ", *segs], lambda: [X.param("zqp", val(), None)])]))
        out.append(ST.file_case(nm + " of an output", [ST.Stmt("output", ["output zqp ", *segs, " = 1"], lambda: [X.output("zqp", 1, val())])]))
    for n in counts(tier, 5):
        case(f"{n} array suffixes", ["zqt", "[]" * n], lambda n=n: X.array_t("zqt", n))
        case(f"union of {n} members", ["(", " | ".join(f"zt{i}" for i in range(n)), ")"], lambda n=n: X.union_t(*[f"zt{i}" for i in range(n)]))
        case(f"union of {n} equal members", ["(", " | ".join(["zqt"] * n), ")"], lambda n=n: X.union_t(*["zqt"] * n))

        def nested(n=n):
            v = "zqt"
            for i in range(n):
                v = X.array_t(X.union_t(v, f"zu{i}"), 1)
            return v
        if n <= 40:
            case(f"{n} nested unions", ["(" * n, "zqt", *[f" | zu{i})[]" for i in range(n)]], nested)
    return out


def literal_unions(tier):
    out = []
    for n in counts(tier, 5):
        words = [f"'zq{i}'" for i in range(n)]
        out.append(ST.file_case(f"type of {n} literals", [ST.Stmt("type", ["type zqt = ", " | ".join(words)], lambda n=n: [
            X.custom_type("zqt", " | ".join(f"zq{i}" for i in range(n)))])]))
    return out


def children(tier):
    out = []
    for n in counts(tier, 5, 20 if tier != "thorough" else 40):
        for wrap in ("", "condition", "loop"):
            r = CO.Res("x0", wrap="", literal=True)
            top = r
            for i in range(n):
                c = CO.Res(f"x{i + 1}", wrap=wrap if i % 2 else "", literal=True, depends="before" if i % 3 == 2 else None)
                r.children.append(c)
                r = c
            out.append(ST.file_case(f"{n} levels of children {wrap}".strip(), [top.stmt()]))
    return out


def literals_in_rows(tier):
    """many literals next to each other"""
    out = []
    q = "'''"
    for n in counts(tier):
        for nm, f, v in (("quoted", lambda i: f"'zq{i}'", lambda i: f"zq{i}"), ("multi-line", lambda i: f"{q}zq{i}{q}", lambda i: f"zq{i}"),
                         ("interpolated", lambda i: f"'zq${{zq{i}}}'", lambda i: f"zq${{zq{i}}}")):
            out.append(vcase(Frag(["[\n  ", "\n  ".join(f(i) for i in range(n)), "\n]"], lambda n=n, v=v: [v(i) for i in range(n)],
                                  f"array of {n} {nm} literals")))
        s = S("los")
        out.append(vcase(Frag(["[\n  ", *sep([["'", s, "'"]] * n, "\n  "), "\n]"], lambda n=n: [st(s)] * n, f"array of {n} equal literals")))
        out.append(vcase(Frag(["'", *["${", I("loi"), "}-"] * n, "'"], lambda n=n: st(*["${", I("loi"), "}-"] * n), f"{n} interpolations")))
        h = N("lon")
        out.append(vcase(Frag(["[", *sep([h] * n, ", "), "]"], lambda n=n: [num(h)] * n, f"array of {n} integers")))
    return out


def everything(tier):
    out = []
    for f in (built_ins, unknown_calls, methods, containers, nestings, decorators, statements, parts, lambdas, types, literal_unions, children,
              literals_in_rows):
        out += f(tier)
    return out
