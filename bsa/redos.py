"""Exponential backtracking of regular expressions, decided from the syntax tree of the pattern.

1. The pattern becomes a program of letters, ordered choices, atomic parts and look-arounds (the order in which a
   backtracking matcher explores it); possessive quantifiers are atomic and (?&name) calls the group.
2. The ambiguity of its automaton (a state that a word leads back to in two different ways) gives candidate words
   prefix, pump, suffix; patterns that call groups additionally get all short pumps over their letter classes.
3. For a candidate the number of steps of a matcher without memory is *calculated* as a recurrence over the program
   positions and text positions (not by matching) for growing numbers of pumps; growth by a constant factor per pump is
   reported with the text.
"""
from __future__ import annotations

import re
import re._constants as C
import re._parser as sre
import sys
from collections import deque

from . import relang as R

OPEN, CLOSE = chr(0xE000), chr(0xE001)
K = (32, 64, 96)


def substituted(p: str) -> str:
    def rep(m):
        return OPEN + (m.group(1) or m.group(2) or m.group(3) or "0") + CLOSE
    return re.sub(r"\(\?R\)|\(\?&(\w+)\)|\(\?P>(\w+)\)|\(\?(\d+)\)", rep, p)


class Program:
    def __init__(self, pattern: str, flags: int = 0):
        self.pattern = pattern
        src = substituted(pattern)
        self.calls = src != pattern
        try:
            t = sre.parse(src, flags)
        except Exception as e:  # noqa: BLE001
            raise R.Unsupported(f"{pattern!r}: {e}") from None
        self.flags = t.state.flags
        self.names = dict(t.state.groupdict)
        self.b = R.Builder(self.flags)
        self.nodes: list = []
        self.masks: set = set()
        self.groups: dict = {"0": (list(t), self.flags)}
        self.collect(list(t), self.flags)
        self.sub: dict = {}
        self.todo: list = []
        self.start = self.seq(list(t), self.flags, self.add(("match",)))
        while self.todo:
            name = self.todo.pop()
            items, fl = self.groups[name]
            n = self.seq(items, fl, self.add(("ret",)))
            self.nodes[self.sub[name]] = ("split", (n,))

    def collect(self, items, flags):
        for op, av in items:
            if op is C.SUBPATTERN:
                gid, add, rem, sub = av
                f = (flags | add) & ~rem
                if gid is not None:
                    self.groups[str(gid)] = (list(sub), f)
                    for n, g in self.names.items():
                        if g == gid:
                            self.groups[n] = (list(sub), f)
                self.collect(list(sub), f)
            elif op is C.BRANCH:
                for alt in av[1]:
                    self.collect(list(alt), flags)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                self.collect(list(av[2]), flags)
            elif op in (C.ASSERT, C.ASSERT_NOT):
                self.collect(list(av[1]), flags)
            elif op is C.ATOMIC_GROUP:
                self.collect(list(av), flags)

    def add(self, node) -> int:
        self.nodes.append(node)
        return len(self.nodes) - 1

    def char(self, m, nxt):
        self.masks.add(m)
        return self.add(("char", m, nxt))

    def seq(self, items, flags, nxt) -> int:
        i = len(items) - 1
        while i >= 0:
            op, av = items[i]
            if op is C.LITERAL and av == 0xE001:
                j = i - 1
                while not (items[j][0] is C.LITERAL and items[j][1] == 0xE000):
                    j -= 1
                nxt = self.add(("call", self.entry("".join(chr(x[1]) for x in items[j + 1 : i])), nxt))
                i = j - 1
                continue
            nxt = self.one(op, av, flags, nxt)
            i -= 1
        return nxt

    def entry(self, name):
        if name not in self.groups:
            raise R.Unsupported(f"call of the group {name}")
        if name not in self.sub:
            self.sub[name] = self.add(None)
            self.todo.append(name)
        return self.sub[name]

    def one(self, op, av, flags, nxt) -> int:
        if op is C.LITERAL:
            return self.char(self.b.lit(av, flags), nxt)
        if op is C.NOT_LITERAL:
            return self.char(R.SIGMA & ~self.b.lit(av, flags), nxt)
        if op is C.ANY:
            return self.char(R.SIGMA if flags & re.S else R.SIGMA & ~R.NL, nxt)
        if op is C.IN:
            return self.char(self.b.charset(av, flags), nxt)
        if op is C.BRANCH:
            return self.add(("split", tuple(self.seq(list(a), flags, nxt) for a in av[1])))
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            return self.seq(list(sub), (flags | add) & ~rem, nxt)
        if op is C.ATOMIC_GROUP:
            return self.add(("atomic", self.seq(list(av), flags, self.add(("end",))), nxt))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            return self.repeat(av, flags, nxt, op is C.MIN_REPEAT)
        if op is C.POSSESSIVE_REPEAT:
            return self.add(("atomic", self.repeat(av, flags, self.add(("end",)), False), nxt))
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            back = 0
            if direction != 1:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise R.Unsupported("look-behind of variable width")
                back = lo
            return self.add(("look", op is C.ASSERT_NOT, self.seq(list(sub), flags, self.add(("end",))), nxt, back))
        if op is C.AT:
            return self.add(("at", av, bool(flags & re.M), nxt))
        raise R.Unsupported(str(op))

    def repeat(self, av, flags, nxt, lazy) -> int:
        lo, hi, sub = av
        sub = list(sub)
        if hi is C.MAXREPEAT:
            loop = self.add(None)
            body = self.seq(sub, flags, loop)
            self.nodes[loop] = ("split", (nxt, body) if lazy else (body, nxt))
            out = loop
        else:
            if hi > 64:
                raise R.Unsupported("large repeat count")
            out = nxt
            for _ in range(hi - lo):
                body = self.seq(sub, flags, out)
                out = self.add(("split", (nxt, body) if lazy else (body, nxt)))
        if lo > 64:
            raise R.Unsupported("large repeat count")
        for _ in range(lo):
            out = self.seq(sub, flags, out)
        return out


# --------------------------------------------------------------------------- cost recurrence
class TooDeep(Exception):
    pass


class Cost:
    """steps of a backtracking matcher on one text; ``op`` decides what counts as success"""

    def __init__(self, prog: Program, text: str, op: str, cap=400_000):
        self.p, self.t, self.op = prog, text, op
        self.bits = [R.letter(c) for c in text]
        self.n = len(text)
        self.memo: dict = {}
        self.cap = cap

    def at(self, kind, multi, i):
        t, n = self.t, self.n
        if kind in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return i == 0 or (multi and kind is C.AT_BEGINNING and t[i - 1] == "\n")
        if kind is C.AT_END_STRING:
            return i == n
        if kind is C.AT_END:
            return i == n or (i == n - 1 and t[i] == "\n") or (multi and t[i] == "\n")
        if kind in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and bool(self.bits[i - 1] & R.W)
            b = i < n and bool(self.bits[i] & R.W)
            return (a != b) == (kind is C.AT_BOUNDARY)
        raise R.Unsupported(str(kind))

    def run(self, pc, i, stack):
        """(end or -1, steps)"""
        steps = 0
        nodes = self.p.nodes
        trail = []
        while True:
            key = (pc, i, stack)
            if key in self.memo:
                r = self.memo[key]
                e, s = (-1, 1) if r is None else r
                break
            if len(self.memo) > self.cap:
                raise TooDeep
            self.memo[key] = None
            trail.append(key)
            nd = nodes[pc]
            k = nd[0]
            if k == "char":
                if i < self.n and self.bits[i] & nd[1]:
                    pc, i = nd[2], i + 1
                    continue
                e, s = -1, 0
                break
            if k == "match":
                e, s = (i if self.op != "fullmatch" or i == self.n else -1), 0
                break
            if k == "end":
                e, s = i, 0
                break
            if k == "at":
                if self.at(nd[1], nd[2], i):
                    pc = nd[3]
                    continue
                e, s = -1, 0
                break
            if k == "ret":
                if stack is None:
                    e, s = i, 0
                    break
                pc, stack = stack
                continue
            if k == "call":
                pc, stack = nd[1], (nd[2], stack)
                continue
            if k == "split":
                s = 0
                e = -1
                for a in nd[1]:
                    e, s1 = self.run(a, i, stack)
                    s += s1
                    if e >= 0:
                        break
                break
            if k == "atomic":
                e, s = self.run(nd[1], i, None)
                if e >= 0:
                    e, s1 = self.run(nd[2], e, stack)
                    s += s1
                break
            if k == "look":
                neg, sub, nxt, back = nd[1:]
                j = i - back
                e, s = self.run(sub, j, None) if j >= 0 else (-1, 0)
                if back and e >= 0 and e != i:
                    e = -1
                if (e >= 0) != neg:
                    e, s1 = self.run(nxt, i, stack)
                    s += s1
                else:
                    e = -1
                break
            raise R.Unsupported(k)
        for key in reversed(trail):
            s += 1
            self.memo[key] = (e, s)
        return e, s


def cost(prog, text, op):
    try:
        return Cost(prog, text, op).run(prog.start, 0, None)[1]
    except (TooDeep, RecursionError):
        return None


def exponential(prog, pre, pump, suf, op):
    a = cost(prog, pre + pump * K[0] + suf, op)
    if a is None or a < 1 << 9:
        return False
    b = cost(prog, pre + pump * K[1] + suf, op)
    if b is None or b < a << 9:
        return False
    c = cost(prog, pre + pump * K[2] + suf, op)
    return c is not None and c >= b << 7


# --------------------------------------------------------------------------- ambiguity
DEPTH = 2


class Ambiguity:
    """positions are (char node, return stack); the stack is bounded"""

    def __init__(self, prog: Program):
        self.p = prog
        self.memo: dict = {}

    def closure(self, pc, stack):
        """{(char node, stack): number of ways, at most two}"""
        key = (pc, stack)
        if key in self.memo:
            return self.memo[key]
        out: dict = {}
        budget = [4000]

        def rec(n, st, seen):
            budget[0] -= 1
            if budget[0] < 0:
                return
            nd = self.p.nodes[n]
            k = nd[0]
            if k == "char":
                out[(n, st)] = min(2, out.get((n, st), 0) + 1)
            elif k == "match":
                out["match"] = min(2, out.get("match", 0) + 1)
            elif k == "split":
                for j, a in enumerate(nd[1]):
                    if (n, j) not in seen:
                        rec(a, st, seen | {(n, j)})
            elif k == "at":
                rec(nd[3], st, seen)
            elif k == "call":
                if len(st) < DEPTH:
                    rec(nd[1], st + (nd[2],), seen)
            elif k == "atomic":
                rec(nd[1], st + (nd[2],) if True else st, seen)
            elif k in ("ret", "end"):
                if st and st[-1] != -1:
                    rec(st[-1], st[:-1], seen)
            elif k == "look":
                rec(nd[3], st, seen)
                rec(nd[2], st + (-1,), seen)
        rec(pc, stack, frozenset())
        self.memo[key] = out
        return out

    def next(self, s):
        n, st = s
        return self.closure(self.p.nodes[n][2], st)

    def mask(self, s):
        return self.p.nodes[s[0]][1]

    def reach(self, limit=4000):
        """state -> a shortest word of masks that ends with its own letter"""
        first = self.closure(self.p.start, ())
        out = {}
        todo = deque()
        for s in first:
            if s != "match":
                out[s] = (self.mask(s),)
                todo.append(s)
        while todo and len(out) < limit:
            s = todo.popleft()
            for t in self.next(s):
                if t != "match" and t not in out:
                    out[t] = out[s] + (self.mask(t),)
                    todo.append(t)
        return out

    def loops(self, p, limit=6000, most=12):
        """words that lead from p back to p in two ways"""
        succ: dict = {}

        def nexts(q):
            if q not in succ:
                a, b, d = q
                o = []
                for x, mx in self.next(a).items():
                    if x == "match":
                        continue
                    for y in self.next(b):
                        if y == "match":
                            continue
                        m = self.mask(x) & self.mask(y)
                        if not m:
                            continue
                        if not d and a == b and x == y:
                            o.append(((x, y, False), m))
                            if mx > 1:
                                o.append(((x, y, True), m))
                        else:
                            o.append(((x, y, True), m))
                succ[q] = o
            return succ[q]
        start = (p, p, False)
        goal = (p, p, True)
        seen = {start}
        todo = deque([start])
        back: dict = {}
        while todo and len(seen) < limit:
            q = todo.popleft()
            for r, m in nexts(q):
                back.setdefault(r, []).append((q, m))
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        if goal not in seen:
            return []
        # distance to the goal and from the start
        to = {goal: ()}
        todo = deque([goal])
        while todo:
            r = todo.popleft()
            for q, m in back.get(r, ()):
                if q not in to:
                    to[q] = (m,) + to[r]
                    todo.append(q)
        fro = {start: ()}
        todo = deque([start])
        while todo:
            q = todo.popleft()
            for r, m in succ.get(q, ()):
                if r not in fro:
                    fro[r] = fro[q] + (m,)
                    todo.append(r)
        words = set()
        for r in sorted(fro, key=lambda r: len(fro[r])):
            if r[2] and r in to and (w := fro[r] + to[r]):
                words.add(w)
                if len(words) >= most:
                    break
        return sorted(words, key=len)


def spellings(word, most=3):
    out = []
    for j in range(most):
        s = ""
        for m in word:
            ps = letters(m)
            s += ps[j % len(ps)]
        if s not in out:
            out.append(s)
    return out


def letters(m):
    ps = sorted(R.picks(m), key=lambda c: (not c.isalnum(), not c.isascii(), c))
    return [c for c in ps if len(c) == 1] or [R.pick(m)]


def classes(prog):
    """one letter per class of letters the pattern distinguishes"""
    part = [R.SIGMA]
    for m in prog.masks:
        part = [x for c in part for x in (c & m, c & ~m) if x]
    return [letters(m)[0] for m in part]


def analyse(pattern, flags, op, deep=False):
    """(witness or None, number of candidates, number of positions)"""
    sys.setrecursionlimit(200_000)
    prog = Program(pattern, flags)
    amb = Ambiguity(prog)
    pos = amb.reach()
    alphabet = classes(prog)
    sufs = ["", *alphabet, "\n"]
    cands: dict = {}
    for p, pre in pos.items():
        for w in amb.loops(p):
            for pump in spellings(w):
                for pr in spellings(pre, 2):
                    cands.setdefault((pr, pump), None)
    n = 0
    for pre, pump in cands:
        for suf in sufs:
            n += 1
            if exponential(prog, pre, pump, suf, op):
                return (pre, pump, suf), n, len(pos)
    if prog.calls:
        import itertools
        pres = {""} | {x for p, pre in pos.items() if len(pre) <= 2 for x in spellings(pre, 1)}
        for ln in range(1, 5 if deep else 4):
            for pump in itertools.product(alphabet, repeat=ln):
                pump = "".join(pump)
                for pre in sorted(pres):
                    for suf in sufs[: None if deep else 2]:
                        n += 1
                        if exponential(prog, pre, pump, suf, op):
                            return (pre, pump, suf), n, len(pos)
    return None, n, len(pos)
