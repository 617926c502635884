"""What is demanded of a result, apart from being equal to the expected one."""
from __future__ import annotations

from lark import Token, Tree

from . import dom, spec
from .dom import CTX, AInt, AStr, AToken, Sym, as_astr
from .spec import compare, keyname, show


def only(case, judge, name=None, **kw):
    """the same template under another judge"""
    c = spec.Case(name or case.name, case.segs, case.want, case.lines, case.limit, judge, case.run, case.ignore, case.classes)
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def raised(o):
    return f"raises {type(o.exc).__name__}", f"conversion fails with {spec.explain(o.exc)}", o.loc


def loc_of(v, site):
    return spec._site(v, site)


# --------------------------------------------------------------------------- C01
def plain(v, where, site, out):
    """values that are not plain data"""
    if isinstance(v, Sym):
        c = dom.resolved(v)
        if c is not None:
            plain(c[0], where, site, out)
        return
    if isinstance(v, (AToken, Token)):
        out.append((where, "a parser token", show(v), site))
    elif isinstance(v, AStr):
        if v.cls is not str and v.cls is not spec.W.BicepElement:
            out.append((where, "a string of type " + v.cls.__name__, show(v), site))
    elif isinstance(v, str):
        if type(v) is not str and type(v) is not spec.W.BicepElement:
            out.append((where, f"a string of type {type(v).__name__}", show(v), site))
    elif v is None or isinstance(v, (bool, AInt)) or type(v) is int:
        return
    elif type(v) is dict:
        site = loc_of(v, site)
        for k, x in v.items():
            if type(k) is not str and not (isinstance(k, AStr) and not isinstance(k, AToken) and k.cls in (
                    str, spec.W.BicepElement)) and type(k) is not spec.W.BicepElement:
                out.append((where, "a key that is " + ("a parser token" if isinstance(k, Token) else type(k).__name__),
                            show(k) if isinstance(k, str) else repr(k), site))
            plain(x, f"{where}.{keyname(k)}", site, out)
    elif type(v) is list:
        site = loc_of(v, site)
        for i, x in enumerate(v):
            plain(x, f"{where}[{i}]", site, out)
    elif isinstance(v, Tree):
        out.append((where, "a syntax tree", str(v.data), site))
    else:
        out.append((where, f"a value of type {type(v).__name__}", show(v)[:80], site))


def bookkeeping(v, source, where, site, out):
    """keys that neither the published result types nor the source contain"""
    from .schema import NUMBERED, schema
    if isinstance(v, Sym):
        return
    if isinstance(v, dict):
        site = loc_of(v, site)
        for k, x in v.items():
            a = as_astr(k)
            segs = dom.segs_of(a) if a is not None else ()
            if all(isinstance(s, str) for s in segs):
                t = "".join(segs)
                m = NUMBERED.match(t)
                if where == ".resources" and all(b and b in source for b in t.split("__")):
                    pass  # a nested resource is named after its parents
                elif t not in schema().keys() and t not in source and not (m and f"{m[1]}_1" in schema().keys()):
                    out.append((where, t, site))
            bookkeeping(x, source, f"{where}.{keyname(k)}", site, out)
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            bookkeeping(x, source, f"{where}[{i}]", site, out)


def judge_plain(case, p, o, want):
    if o.status != "ok":
        return
    out: list = []
    plain(o.value, "", None, out)
    for w, what, text, site in out:
        yield f"{w}|{what}", f"{w or 'result'} is {what}: {text}", site
    out = []
    bookkeeping(o.value, case.source(), "", None, out)
    for w, k, site in out:
        yield f"{w}|key {k}", f"{w or 'result'} has the key {k!r}, which is neither published nor written in the source", site
    if want is not None and not isinstance(want, spec.Reject):
        for d in compare(o.value, want):
            if d.kind == "extra":
                yield f"{d.where}|extra|{d.got[:120]}", f"{d.where}: {d.got} was not written in the source", d.loc


# --------------------------------------------------------------------------- C02
def judge_kinds(case, p, o, want):
    """kinds of atoms: identifier, literal, number, boolean, null"""
    if o.status != "ok":
        return
    for d in compare(o.value, want, "", True):
        if d.kind == "identifier marker" or (d.kind == "value" and "other" not in (kind_of(d.wantv),) and (
                kind_of(d.wantv) != kind_of(d.gotv) or kind_of(d.wantv) == "int")):
            yield f"{d.where}|{d.kind}|{d.got[:120]}", repr(d) + (
                " (identifier type expected)" if spec.is_elem(d.wantv) else " (no identifier type expected)"
                if d.kind == "identifier marker" else ""), d.loc


def kind_of(v):
    if isinstance(v, Sym):
        c = dom.resolved(v)
        return "other" if c is None else kind_of(c[0])
    if v is None or isinstance(v, bool):
        return repr(v)
    if isinstance(v, (int, AInt)):
        return "int"
    if as_astr(v) is not None:
        return "identifier" if spec.is_elem(v) else "str"
    return "other"


# --------------------------------------------------------------------------- C03
STRINGS = ("S", "SI", "M", "M1", "K", "V", "P", "Q")


def judge_text(case, p, o, want):
    """texts of literals"""
    if o.status != "ok":
        yield raised(o)
        return
    for d in compare(o.value, want):
        if has_text(d.wantv) or has_text(d.gotv) or (as_astr(d.wantv) is not None):
            yield f"{d.where}|{d.got[:160]}", repr(d), d.loc


def has_text(v):
    a = as_astr(v) if not isinstance(v, Sym) else None
    if a is not None:
        return any(isinstance(s, dom.Hole) and s.kind in STRINGS for s in dom.segs_of(a))
    if isinstance(v, dict):
        return any(has_text(k) or has_text(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return any(has_text(x) for x in v)
    return False


# --------------------------------------------------------------------------- C16
def containers(v, where, site, seen, out, often=()):
    if isinstance(v, Sym):
        c = dom.resolved(v)
        if c is None:
            k = ("sym", v.name)
            if k in seen and v.name not in often:
                out.append((seen[k], where, f"«{v.name}»", site))
            else:
                seen[k] = where
            return
        v = c[0]
    if isinstance(v, (dict, list)):
        site = loc_of(v, site)
        k = ("id", id(v))
        if k in seen:
            out.append((seen[k], where, show(v)[:80], site))
            return
        seen[k] = where
        for n, x in (v.items() if isinstance(v, dict) else enumerate(v)):
            containers(x, f"{where}.{keyname(n) if isinstance(v, dict) else n}", site, seen, out, often)


def judge_alias(case, p, o, want):
    if o.status != "ok":
        return
    out: list = []
    often = set()
    for h in case.segs:
        if isinstance(h, spec.EHole):
            (often.add(h.sym.name) if case.segs.count(h) > 1 else None)
    containers(o.value, "", None, {}, out, often)
    for a, b, text, site in out:
        yield f"{a}={b}", f"{a or 'the result'} and {b} are the same object {text}", site


# --------------------------------------------------------------------------- C17
def own_data(w, path):
    """the library's own data files, such as the grammar"""
    import pathlib
    return path is not None and w.is_own(path) and pathlib.Path(path).suffix != ".py"


def judge_effects(case, p, o, want):
    w = spec.W
    given = getattr(case, "given", None)
    option = getattr(case, "cache", True)
    for e in w.effects:
        if e.kind == "cache":
            if not option:
                yield "cache", "the parser cache is used although its option is off", e.loc
            continue
        if e.kind in ("read", "stat") and (e.path == given and given is not None or own_data(w, e.path)):
            continue
        yield f"{e.what}", f"parsing {e.what}", e.loc


# --------------------------------------------------------------------------- C23
ALLOWED_ERRORS = ("ValueError", "VisitError")


def judge_converts(case, p, o, want):
    if o.status == "raised" and not isinstance(want, spec.Reject):
        yield raised(o)
