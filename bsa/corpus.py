"""Source templates shared by several properties."""
from __future__ import annotations

from . import forms as X, spec, statements as ST, tables as TB
from .spec import E, Case, F, Frag, I, M, M1, N, S, SI, el, hole, num, st  # noqa: F401


def matrix(positions, forms, **kw):
    return [Case(f"{p.name} / {f.name}", p.segs(f), p.want(f), **kw) for p in positions for f in forms]


def call_frag(written, name, args, vals, layout=""):
    segs = [f"{written}("]
    for i, a in enumerate(args):
        if i:
            segs.append(", ")
        segs.append(a)
    segs.append(")")
    return Frag(segs, lambda: TB.call(name, [v() for v in vals]), f"{written}/{len(args)}")


def function_frags(n, prefixes=("",), names=None):
    out = []
    for name, (space, _, arities) in TB.FUNCTIONS.items():
        if names and name not in names:
            continue
        for pre in prefixes:
            written = f"{space}.{name}" if pre == "ns" else name
            for k in arities:
                es = [E(f"{n}{i}") for i in range(k)]
                out.append(call_frag(written, name, es, [e.val for e in es]))
    return out


def variable_position():
    return X.vpos("variable value", "", "", lambda e: e)


def statements(n="z"):
    out = []
    for s in ST.every(n):
        out.append(ST.file_case(s.name, [s]))
        if s.kind in ST.DECORATED:
            out.append(ST.file_case(f"{s.name} decorated", [ST.with_decorators(s, ST.decorator_list("d")[:3])]))
    return out


def decorators():
    out = []
    stm = [s for s in ST.one_each("s") if s.kind in ST.DECORATED]
    for s in stm:
        for d in ST.decorator_list("d"):
            out.append(ST.file_case(f"@{d.name} on {s.name}", [ST.with_decorators(s, [d])]))
    return out


# --------------------------------------------------------------------------- child resources
class Res:
    """a resource with children; wrapper is one of '', 'condition', 'loop', 'filtered', 'indexed', 'object'"""

    def __init__(self, n, wrap="", existing=False, children=(), before=True, after=True, depends=None, decorated=False, literal=False):
        self.n, self.wrap, self.existing, self.children = n, wrap, existing, list(children)
        self.before, self.after, self.depends, self.decorated = before, after, depends, decorated
        self.name = f"zr{n}" if literal else ST.IP(n + "r")
        self.spans: list = []

    def child_type(self):
        return hole(self.n + "ct", "K", spec.L(r"[^'@\\$\s/]+(/[^'@\\$\s/]+)*"), f"zt{self.n}")

    def segs(self, top=True, ind=""):
        n = self.n
        out = []
        if top:
            if self.decorated:
                out += ["@batchSize(", E(n + "dec"), ")\n"]
            out += [f"{ind}resource ", self.name, " '", ST.TN(n), "@", ST.VN(n), "'"]
        else:
            out += [f"{ind}resource ", self.name, " '", self.child_type(), "'"]
        out += [" existing" if self.existing else "", " = "]
        post = ""
        x, i = I(n + "x"), I(n + "i")
        if self.wrap == "condition":
            out += ["if (", E(n + "c"), ") "]
        elif self.wrap == "loop":
            out += ["[for ", x, " in ", E(n + "s"), ": "]
            post = "]"
        elif self.wrap == "filtered":
            out += ["[for ", x, " in ", E(n + "s"), ": if(", E(n + "c"), ") "]
            post = "]"
        elif self.wrap == "indexed":
            out += ["[for (", x, ", ", i, ") in ", E(n + "s"), ": "]
            post = "]"
        elif self.wrap == "object":
            out += ["[for ", x, " in items (", E(n + "s"), "): "]
            post = "]"
        out.append("{\n")
        if self.before:
            out += [f"{ind}  zka: ", E(n + "ka"), "\n"]
        if self.depends == "before":
            out += [f"{ind}  depends_on: [", E(n + "da"), "]\n"]
        elif self.depends == "expression":
            out += [f"{ind}  depends_on: zqf(", E(n + "da"), ")\n"]
        elif self.depends == "empty":
            out += [f"{ind}  depends_on: []\n"]
        for c in self.children:
            out += [*c.segs(False, ind + "  "), "\n"]
        if self.depends == "after":
            out += [f"{ind}  depends_on: [\n", f"{ind}    ", E(n + "da"), f"\n{ind}    ", E(n + "db"), f"\n{ind}  ]\n"]
        if self.after:
            out += [f"{ind}  zkb: ", E(n + "kb"), "\n"]
        out.append(ind + "}" + post)
        return spec.flat(out)

    def entries(self, parent=None):
        """parent: (name segments, type segments, version)"""
        n = self.n
        if parent is None:
            name, type_, ver = [self.name], [ST.TN(n)], ST.VN(n)
        else:
            name, type_, ver = [*parent[0], "__", self.name], [*parent[1], "/", self.child_type()], parent[2]
        cfg = {}
        if self.before:
            cfg["zka"] = E(n + "ka").val()
        if self.after:
            cfg["zkb"] = E(n + "kb").val()
        deps = None
        if self.depends == "before":
            deps = [E(n + "da").val()]
        elif self.depends == "after":
            deps = [E(n + "da").val(), E(n + "db").val()]
        elif self.depends == "empty":
            deps = []
        elif self.depends == "expression":
            deps = [TB.call("zqf", [E(n + "da").val()])]
        whole = cfg
        x, i = I(n + "x"), I(n + "i")
        if self.wrap == "condition":
            whole = {"condition": E(n + "c").val(), "config": cfg}
        elif self.wrap == "loop":
            whole = X.loop(X.arr(st(x), E(n + "s").val()), cfg)
        elif self.wrap == "filtered":
            whole = X.loop(X.arr(st(x), E(n + "s").val()), cfg, E(n + "c").val())
        elif self.wrap == "indexed":
            whole = X.loop(X.arri(st(x), st(i), E(n + "s").val()), cfg)
        elif self.wrap == "object":
            whole = X.loop(X.obj(st(x), E(n + "s").val()), cfg)
        if deps is not None and (parent is None):
            if self.depends == "expression":
                cfg["depends_on"] = deps[0]
            else:
                cfg["depends_on"] = deps
        elif parent is not None:
            # the dependency on the parent is recorded in the configuration as the author's own list would be
            if deps is not None:
                cfg["depends_on"] = deps[0] if self.depends == "expression" else [*deps]
            target = cfg if self.wrap == "" else whole
            if self.wrap == "" or deps is None:
                target["depends_on"] = [*(deps or []), el(*parent[0])]
            else:
                target["depends_on"] = [el(*parent[0])]
        decos = [{"type": "batchSize", "argument": E(n + "dec").val()}] if self.decorated and parent is None else []
        out = [X.resource(st(*name), st(*type_), st(ver), whole, self.existing, decos)]
        for c in self.children:
            out += c.entries((name, type_, ver))
        return out

    def stmt(self):
        return ST.Stmt("resource", self.segs(), self.entries, kind="resource")
