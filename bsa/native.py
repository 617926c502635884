"""The only places where operations of the host are performed on behalf of the analysed program.

An exception whose innermost frame inside this package lies in this file is an exception of the analysed program; any
other exception is a defect of the analysis itself and never counts as a finding.
"""
from __future__ import annotations

import operator as _o

BIN = {
    "Add": _o.add, "Sub": _o.sub, "Mult": _o.mul, "Div": _o.truediv, "FloorDiv": _o.floordiv, "Mod": _o.mod,
    "Pow": _o.pow, "LShift": _o.lshift, "RShift": _o.rshift, "BitOr": _o.or_, "BitXor": _o.xor, "BitAnd": _o.and_,
    "MatMult": _o.matmul,
}
IBIN = {
    "Add": _o.iadd, "Sub": _o.isub, "Mult": _o.imul, "Div": _o.itruediv, "FloorDiv": _o.ifloordiv, "Mod": _o.imod,
    "Pow": _o.ipow, "LShift": _o.ilshift, "RShift": _o.irshift, "BitOr": _o.ior, "BitXor": _o.ixor, "BitAnd": _o.iand,
    "MatMult": _o.imatmul,
}
CMP = {"Lt": _o.lt, "LtE": _o.le, "Gt": _o.gt, "GtE": _o.ge, "Eq": _o.eq, "NotEq": _o.ne}
UN = {"UAdd": _o.pos, "USub": _o.neg, "Invert": _o.invert, "Not": _o.not_}


def binop(name, a, b):
    return BIN[name](a, b)


def ibinop(name, a, b):
    return IBIN[name](a, b)


def compare(name, a, b):
    return CMP[name](a, b)


def unop(name, a):
    return UN[name](a)


def contains(c, x):
    return x in c


def call(f, args, kw):
    return f(*args, **kw)


def attr(o, name):
    return getattr(o, name)


def setattr_(o, name, v):
    setattr(o, name, v)


def delattr_(o, name):
    delattr(o, name)


def getitem(o, k):
    return o[k]


def setitem(o, k, v):
    o[k] = v


def delitem(o, k):
    del o[k]


def iterate(o):
    it = iter(o)
    return pulled(it) if type(it) in (zip, map, filter, enumerate) or type(it).__module__ == "itertools" else it


def pulled(it):
    """items of an iterator that can itself raise (a strict zip): the error is one of the program"""
    for x in it:
        yield x


def next_(it):
    return next(it)


def truth(o):
    return bool(o)


def length(o):
    return len(o)


def throw(e):
    raise e


def throw_from(e, cause):
    raise e from cause


def enter(m):
    return type(m).__enter__(m)


def leave(m, *a):
    return type(m).__exit__(m, *a)


def unpack_error(msg):
    raise ValueError(msg)


def name_error(msg):
    raise NameError(msg)


def unbound_error(msg):
    raise UnboundLocalError(msg)


def type_error(msg):
    raise TypeError(msg)


def attr_error(msg):
    raise AttributeError(msg)


def key_error(k):
    raise KeyError(k)


def import_error(msg):
    raise ImportError(msg)


def index_error(msg):
    raise IndexError(msg)


def value_error(msg):
    raise ValueError(msg)


def assertion(msg):
    raise AssertionError(msg)


def recursion_error(msg):
    e = RecursionError(msg)
    e.of_program = True
    raise e
