"""The library's published result types, read from pycep/typing.py's syntax tree, and conformance of abstract values with them."""
from __future__ import annotations

import ast
import re

from . import dom, spec
from .dom import AInt, AStr, Sym, as_astr
from .spec import keyname, show

NUMBERED = re.compile(r"(.+)_([0-9]+)$")


class Fields:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields  # {key: (annotation, required)}

    def tag(self):
        a = self.fields.get("type")
        return literals(a[0]) if a else None


def literals(a):
    if isinstance(a, ast.Subscript) and name_of(a.value) == "Literal":
        xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
        return [x.value for x in xs if isinstance(x, ast.Constant)]
    return None


def name_of(a):
    return a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else None


class Schema:
    def __init__(self, tree):
        self.classes, self.aliases = {}, {}
        classes = [n for n in tree.body if isinstance(n, ast.ClassDef)]
        while classes:  # base classes first
            later = [n for n in classes if any(name_of(b) in {c.name for c in classes} - {n.name} for b in n.bases)]
            for n in [c for c in classes if c not in later] or classes:
                self.cls(n)
            classes = later if len(later) < len(classes) else []
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                continue
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.alias(n.target.id, n.value)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Call) and name_of(v.func) == "TypedDict" and len(v.args) > 1 and isinstance(v.args[1], ast.Dict):
                    total = next((k.value.value for k in v.keywords if k.arg == "total" and isinstance(k.value, ast.Constant)), True)
                    self.classes[n.targets[0].id] = Fields(n.targets[0].id, {
                        k.value: self.field(x, total) for k, x in zip(v.args[1].keys, v.args[1].values)})
                else:
                    self.alias(n.targets[0].id, v)
            elif hasattr(ast, "TypeAlias") and isinstance(n, ast.TypeAlias):
                self.alias(n.name.id, n.value)

    def alias(self, name, v):
        self.aliases[name] = v

    def parse(self, a):
        while isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        return a

    def field(self, a, total=True):
        req = total
        a = self.parse(a)
        while isinstance(a, ast.Subscript) and name_of(a.value) in ("NotRequired", "Required", "ReadOnly", "Annotated"):
            w = name_of(a.value)
            if w == "NotRequired":
                req = False
            elif w == "Required":
                req = True
            a = self.parse(a.slice.elts[0] if w == "Annotated" else a.slice)
        return a, req

    def cls(self, n):
        bases = [name_of(b.value if isinstance(b, ast.Subscript) else b) for b in n.bases]
        if not any(b == "TypedDict" or b in self.classes for b in bases):
            return
        total = next((k.value.value for k in n.keywords if k.arg == "total" and isinstance(k.value, ast.Constant)), True)
        f = {}
        for b in bases:
            if b in self.classes:
                f.update(self.classes[b].fields)
        for s in n.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                f[s.target.id] = self.field(s.annotation, total)
        self.classes[n.name] = Fields(n.name, f)

    # ------------------------------------------------------------------ conformance
    def members(self, a, seen=()):
        """the alternatives of an annotation, aliases resolved"""
        a = self.parse(a)
        n = name_of(a)
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.members(a.left, seen) + self.members(a.right, seen)
        if isinstance(a, ast.Subscript) and name_of(a.value) in ("Union", "Optional"):
            xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            out = [m for x in xs for m in self.members(x, seen)]
            return out + ([ast.Constant(None)] if name_of(a.value) == "Optional" else [])
        if n in self.aliases and n not in ("PossibleValue", "PossibleNoneValue") and n not in seen:
            return self.members(self.aliases[n], (*seen, n))
        return [a]

    def check(self, v, a, where, out, lenient=False):
        ms = self.members(a)
        names = [name_of(m) for m in ms]
        if any(n in ("PossibleValue", "PossibleNoneValue", "Any", "object") for n in names):
            return self.expression(v, where, out)
        if lenient and isinstance(v, Sym):
            return
        v = resolve(v)
        if isinstance(v, Sym):
            if not lenient:
                out.append((where, f"an expression where {ast.unparse(a)} is promised", show(v)))
            return
        if isinstance(v, dict):
            ds = [self.classes[n] for n in names if n in self.classes]
            if ds:
                return self.typed(v, ds, where, out)
            for m in ms:
                if isinstance(m, ast.Subscript) and name_of(m.value) in ("dict", "Dict", "Mapping"):
                    inner = m.slice.elts[1] if isinstance(m.slice, ast.Tuple) else ast.Name("Any")
                    if lenient or name_of(inner) in ("Any", "PossibleValue", "PossibleNoneValue", "object"):
                        return self.expression(v, where, out)
                    for k, x in v.items():
                        self.check(x, inner, f"{where}.{keyname(k)}", out, lenient)
                    return
            if lenient:
                return self.expression(v, where, out)
            out.append((where, f"a dict where {ast.unparse(a)} is promised", show(v)[:120]))
            return
        if isinstance(v, list):
            for m in ms:
                if isinstance(m, ast.Subscript) and name_of(m.value) in ("list", "List", "Sequence"):
                    for i, x in enumerate(v):
                        self.check(x, m.slice, f"{where}[{i}]", out, lenient)
                    return
            if lenient:
                return self.expression(v, where, out)
            out.append((where, f"a list where {ast.unparse(a)} is promised", show(v)[:120]))
            return
        if lenient:
            return
        for m in ms:
            n = name_of(m)
            lit = literals(m)
            if lit is not None and any(same(v, x) for x in lit):
                return
            if n == "str" and as_astr(v) is not None or n == "bool" and isinstance(v, bool) or \
                    n == "int" and isinstance(v, (int, AInt)) or n == "None" and v is None or \
                    isinstance(m, ast.Constant) and m.value is None and v is None or n in ("float",) and isinstance(v, float):
                return
        out.append((where, f"{kind(v)} where {ast.unparse(a)} is promised", show(v)[:120]))

    def typed(self, v, ds, where, out):
        t = v.get("type")
        cands = []
        if t is not None and not isinstance(t, Sym):
            cands = [d for d in ds if d.tag() and any(same(t, x) for x in d.tag())]
            if not cands:
                cands = [d for d in ds if "type" in d.fields and not d.tag()]
            if not cands and any(d.tag() for d in ds):
                out.append((where, "a dict with an undeclared type tag", show(t)))
                return
        best = None
        for d in cands or ds:
            o: list = []
            self.fields(v, d, where, o)
            if not o:
                return
            if best is None or len(o) < len(best):
                best = o
        out += best or []

    def fields(self, v, d, where, out):
        keys = {}
        for k, x in v.items():
            a = as_astr(k)
            c = "".join(dom.segs_of(a)) if a is not None and all(isinstance(s, str) for s in dom.segs_of(a)) else None
            if c is None:
                out.append((f"{where}.{keyname(k)}", f"key not declared by {d.name}", show(k)))
                continue
            keys[c] = x
        for k, (a, req) in d.fields.items():
            if req and k not in keys:
                out.append((f"{where}.{k}", f"required key of {d.name} missing", ""))
        for k, x in keys.items():
            w = f"{where}.{k}"
            f = d.fields.get(k) or self.variadic(d, k)
            if f is None:
                out.append((w, f"key not declared by {d.name}", show(x)[:80]))
                continue
            if k == "config" and name_of(getattr(f[0], "value", None)) in ("dict", "Dict") and d.name == "Loop":
                self.expression(x, w, out)  # the body of a loop may be any expression
                continue
            self.check(x, f[0], w, out, k in ("argument",) or d.name.endswith(("Parameters", "Operands")) or k not in d.fields)

    def variadic(self, d, k):
        """arg_4 where arg_1 .. arg_3 are declared and the last one is optional"""
        m = NUMBERED.match(k)
        if not m or int(m[2]) < 1 or m[2][0] == "0":
            return None
        nums = [(int(NUMBERED.match(f)[2]), f) for f in d.fields if NUMBERED.match(f) and NUMBERED.match(f)[1] == m[1]]
        if not nums:
            return None
        a, req = d.fields[max(nums)[1]]
        if not req or d.name in ("_FormatParameters", "_UnionParameters") or any(
                isinstance(x, ast.Constant) and x.value is None or name_of(x) == "None" for x in self.members(a)):
            return a, False
        return None

    def expression(self, v, where, out):
        """values of expressions: constructs are recognised by their shape"""
        if isinstance(v, Sym):
            return  # the value of an opaque sub-expression
        if isinstance(v, list):
            for i, x in enumerate(v):
                self.expression(x, f"{where}[{i}]", out)
        elif isinstance(v, dict):
            ks = set()
            for k in v:
                a = as_astr(k)
                if a is None:
                    out.append((where, "key that is not a string", repr(k)))
                    return
                segs = dom.segs_of(a)
                ks.add("".join(segs) if all(isinstance(s, str) for s in segs) else None)
            c = None
            if ks == {"function"}:
                c = "Function"
            elif ks == {"operator"}:
                c = "Operator"
            elif "loop_type" in ks:
                c = "Loop"
            elif ks == {"type", "detail"} and same(resolve(v["type"]), "lambda_expression"):
                c = "LambdaExpression"
            elif ks >= {"condition", "config"} and None not in ks:
                c = "DeployCondition"
            if c in self.classes:
                return self.typed(v, [self.classes[c]], where, out)
            for k, x in v.items():
                self.expression(x, f"{where}.{keyname(k)}", out)

    def keys(self):
        return {k for d in self.classes.values() for k in d.fields}


def resolve(v):
    if isinstance(v, Sym):
        c = dom.resolved(v)
        return v if c is None else c[0]
    return v


def same(v, x):
    if as_astr(v) is not None and isinstance(x, str):
        s = dom.segs_of(as_astr(v))
        return all(isinstance(y, str) for y in s) and "".join(s) == x
    return type(v) is type(x) and v == x


def kind(v):
    return "None" if v is None else "a string" if as_astr(v) is not None else "a number" if isinstance(v, AInt) else type(v).__name__


_schema: list = []


def schema():
    if not _schema:
        w = spec.W
        own = w.package_dir() / "typing.py"
        # declarations may also live in modules the published one imports
        paths = [f for f in w.files() if f == own or "TypedDict" in w.source_of(f)]
        body = [n for f in sorted(paths, key=lambda f: (f != own, f)) for n in w.tree_of(f).body]
        _schema.append(Schema(ast.Module(body, [])))
    return _schema[0]


def judge_types(case, p, o, want):
    if o.status != "ok":
        return
    out: list = []
    s = schema()
    s.check(o.value, ast.Name("BicepJson"), "", out)
    for where, what, text in out[:6]:
        yield f"{where}|{what}", f"{where or 'result'}: {what} {text}", spec._site(o.value, None)
