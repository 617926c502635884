"""Regular languages over a finite representative alphabet.

Every ASCII character is its own letter; the rest of Unicode is represented by a few letters chosen so that every
character category a regular expression can test (\\w, \\d, \\s, line ends, plain symbols) has a member.  Patterns are read
with the standard library's regular expression *parser* (syntax tree only); nothing is ever matched by running it.
"""
from __future__ import annotations

import re
import re._constants as C
import re._parser as sre
from functools import lru_cache

NON_ASCII = ["\u00e9", "\u4e2d", "\u00b2", "\u0663", "\u20ac", "\u00a0", "\u0085", "\u2028", "\ufeff", "\U0001f600"]
LETTERS = [chr(i) for i in range(128)] + NON_ASCII
MARKS = 24  # extra letters used as markers (group borders, end of match)
N = len(LETTERS)
INDEX = {c: i for i, c in enumerate(LETTERS)}
SIGMA = (1 << N) - 1


def mark(i: int) -> int:
    assert i < MARKS
    return 1 << (N + i)


END = mark(0)  # separates the matched word from the following text
ALLSYM = (1 << (N + MARKS)) - 1


class Unsupported(Exception):
    """a pattern uses a feature outside the modelled fragment"""


def letter(c: str) -> int:
    i = INDEX.get(c)
    if i is None:
        if re.match(r"\d", c):
            i = INDEX["\u0663"]
        elif re.match(r"\s", c):
            i = INDEX["\u00a0"]
        elif re.match(r"\w", c):
            i = INDEX["\u00e9"]
        else:
            i = INDEX["\u20ac"]
    return 1 << i


def mask(pred) -> int:
    m = 0
    for i, c in enumerate(LETTERS):
        if pred(c):
            m |= 1 << i
    return m


W = mask(lambda c: re.match(r"\w", c) is not None)
D = mask(lambda c: re.match(r"\d", c) is not None)
S = mask(lambda c: re.match(r"\s", c) is not None)
NL = letter("\n")
CATEGORY = {
    C.CATEGORY_DIGIT: D, C.CATEGORY_NOT_DIGIT: SIGMA & ~D,
    C.CATEGORY_SPACE: S, C.CATEGORY_NOT_SPACE: SIGMA & ~S,
    C.CATEGORY_WORD: W, C.CATEGORY_NOT_WORD: SIGMA & ~W,
}


# --------------------------------------------------------------------------- deterministic automata
class DFA:
    """Total DFA.  ``classes`` partition the alphabet (bit masks), ``trans[s][k]`` is the successor."""

    __slots__ = ("classes", "trans", "acc", "_min")

    def __init__(self, classes, trans, acc):
        self.classes = tuple(classes)
        self.trans = trans
        self.acc = acc
        self._min = False

    def cls(self, bit: int) -> int:
        for k, m in enumerate(self.classes):
            if m & bit:
                return k
        raise KeyError(bit)

    def step(self, s: int, bit: int) -> int:
        return self.trans[s][self.cls(bit)]

    def run(self, text: str, s: int = 0) -> int:
        for ch in text:
            s = self.step(s, letter(ch))
        return s

    def accepts(self, text: str) -> bool:
        return self.run(text) in self.acc

    def minimize(self) -> "DFA":
        if self._min:
            return self
        n = len(self.trans)
        part = [1 if i in self.acc else 0 for i in range(n)]
        count = -1
        while n > LARGE:
            part = _hopcroft(self.trans, self.acc)
            break
        while n <= LARGE:
            sig = {}
            new = []
            for i in range(n):
                key = (part[i], tuple(part[t] for t in self.trans[i]))
                new.append(sig.setdefault(key, len(sig)))
            part = new
            if len(sig) == count:
                break
            count = len(sig)
        # renumber from the start state, reachable only
        order, todo = {part[0]: 0}, [0]
        rep = [0]
        i = 0
        while i < len(rep):
            for t in self.trans[rep[i]]:
                if part[t] not in order:
                    order[part[t]] = len(rep)
                    rep.append(t)
            i += 1
        trans = [[order[part[t]] for t in self.trans[r]] for r in rep]
        acc = {order[part[r]] for r in rep if r in self.acc}
        # merge identical letter classes
        cols = {}
        for k, m in enumerate(self.classes):
            cols.setdefault(tuple(row[k] for row in trans), []).append(m)
        classes, tr = [], [[] for _ in trans]
        for col, ms in cols.items():
            mm = 0
            for m in ms:
                mm |= m
            classes.append(mm)
            for s, t in enumerate(col):
                tr[s].append(t)
        d = DFA(classes, tr, acc)
        d._min = True
        return d

    # boolean algebra -------------------------------------------------------
    def product(self, other: "DFA", op) -> "DFA":
        pairs, idx = [], []
        for i, a in enumerate(self.classes):
            for j, b in enumerate(other.classes):
                if a & b:
                    pairs.append(a & b)
                    idx.append((i, j))
        seen = {(0, 0): 0}
        order = [(0, 0)]
        trans = []
        k = 0
        while k < len(order):
            a, b = order[k]
            row = []
            ta, tb = self.trans[a], other.trans[b]
            for i, j in idx:
                t = (ta[i], tb[j])
                n = seen.get(t)
                if n is None:
                    n = seen[t] = len(order)
                    order.append(t)
                row.append(n)
            trans.append(row)
            k += 1
        acc = {i for i, (a, b) in enumerate(order) if op(a in self.acc, b in other.acc)}
        return DFA(pairs, trans, acc).minimize()

    def __and__(self, o):
        return self.product(o, lambda a, b: a and b)

    def __or__(self, o):
        return self.product(o, lambda a, b: a or b)

    def __sub__(self, o):
        return self.product(o, lambda a, b: a and not b)

    def __invert__(self):
        return DFA(self.classes, self.trans, set(range(len(self.trans))) - self.acc).minimize()

    def empty(self) -> bool:
        return not self.minimize().acc

    def includes(self, o: "DFA") -> bool:
        return (o - self).empty()

    def reverse_reach(self):
        live = set(self.acc)
        if len(self.trans) > LARGE:
            back = [[] for _ in self.trans]
            for s, row in enumerate(self.trans):
                for t in set(row):
                    back[t].append(s)
            todo = list(live)
            while todo:
                for s in back[todo.pop()]:
                    if s not in live:
                        live.add(s)
                        todo.append(s)
            return live
        changed = True
        while changed:
            changed = False
            for s, row in enumerate(self.trans):
                if s not in live and any(t in live for t in row):
                    live.add(s)
                    changed = True
        return live

    def key(self):
        d = self.minimize()
        return (d.classes, tuple(map(tuple, d.trans)), frozenset(d.acc))

    # enumeration -----------------------------------------------------------
    def sample(self, extra: int = 0) -> list[str]:
        """a shortest word plus words that use every other letter class on some accepting path"""
        d = self.minimize()
        live = d.reverse_reach()
        if 0 not in live:
            return []
        # shortest word to accept from each live state
        best: dict[int, str] = {s: "" for s in d.acc}
        back: dict[int, list] = {}
        for s in live:
            for k, t in enumerate(d.trans[s]):
                if t in live:
                    back.setdefault(t, []).append((s, k))
        todo = list(d.acc)
        while todo:
            t = todo.pop(0)
            for s, k in back.get(t, ()):
                if s not in best:
                    best[s] = pick(d.classes[k]) + best[t]
                    todo.append(s)
        pre = {0: ""}
        todo = [0]
        while todo:
            s = todo.pop(0)
            for k, t in enumerate(d.trans[s]):
                if t in live and t not in pre:
                    pre[t] = pre[s] + pick(d.classes[k])
                    todo.append(t)
        out = [best[0]]
        states = sorted(pre)
        if len(states) > LARGE:
            by_len = sorted(states, key=lambda s: len(pre[s]))
            states = [*by_len[:8], *by_len[8:-4:max(1, len(by_len) // 8)], *by_len[-4:]]
        for s in states:
            for k, t in enumerate(d.trans[s]):
                if t in live:
                    for ch in picks(d.classes[k]):
                        w = pre[s] + ch + best[t]
                        if w not in out:
                            out.append(w)
        return out

    def shortest(self) -> str | None:
        k = _shortest.get(id(self))
        if k is not None and k[0] is self:
            return k[1]
        d = self.minimize()
        come, todo = {0: None}, [0]
        end = 0 if 0 in d.acc else None
        i = 0
        while end is None and i < len(todo):
            s = todo[i]
            i += 1
            for j, t in enumerate(d.trans[s]):
                if t not in come and d.classes[j] & SIGMA:
                    come[t] = (s, j)
                    todo.append(t)
                    if t in d.acc:
                        end = t
                        break
        w = None
        if end is not None:
            w, s = [], end
            while come[s] is not None:
                s, j = come[s]
                w.append(pick(d.classes[j]))
            w = "".join(reversed(w))
        _shortest[id(self)] = (self, w)
        return w


_shortest: dict = {}
LARGE = 250


def _hopcroft(trans, acc):
    """the block of every state in the coarsest partition"""
    n = len(trans)
    m = len(trans[0])
    back = [[[] for _ in range(n)] for _ in range(m)]
    for s, row in enumerate(trans):
        for k, t in enumerate(row):
            back[k][t].append(s)
    blocks = [b for b in (set(acc), set(range(n)) - set(acc)) if b]
    of = [0] * n
    for i, b in enumerate(blocks):
        for s in b:
            of[s] = i
    work = {(min(range(len(blocks)), key=lambda i: len(blocks[i])), k) for k in range(m)}
    while work:
        i, k = work.pop()
        pre = {}
        bk = back[k]
        for t in blocks[i]:
            for s in bk[t]:
                pre.setdefault(of[s], set()).add(s)
        for j, hit in pre.items():
            b = blocks[j]
            if len(hit) == len(b):
                continue
            rest = b - hit
            small, large = (hit, rest) if len(hit) <= len(rest) else (rest, hit)
            blocks[j] = large
            new = len(blocks)
            blocks.append(small)
            for s in small:
                of[s] = new
            for c in range(m):
                work.add((new, c))
    return of


def pick(m: int) -> str:
    return _picks(m)[0]


PREF = "azAZ_09-./'\\$ {}@,:\"\t\n\r"


def _kind(c):
    if not c.isascii():
        return "n" + ("w" if re.match(r"\w", c) else "o")
    if c.isalnum():
        return "z" if c == "0" else "d" if c.isdigit() else "u" if c.isupper() else "l"
    return c if c in PREF else "p"


_ORDER = [(letter(c), c, _kind(c)) for c in dict.fromkeys(PREF + "".join(LETTERS))]


def picks(m: int) -> list[str]:
    """a few letters of a class, one for each rough kind"""
    return list(_picks(m))


@lru_cache(maxsize=None)
def _picks(m: int) -> tuple:
    out = []
    kinds = set()
    for bit, c, kind in _ORDER:
        if m & bit and kind not in kinds:
            kinds.add(kind)
            out.append(c)
    if not out:
        i = (m & -m).bit_length() - 1
        out = [chr(0xE000 + i - N)]
    return tuple(out)


# --------------------------------------------------------------------------- automata from syntax trees
class NFA:
    def __init__(self):
        self.eps: list[list[int]] = []
        self.edges: list[list[tuple[int, int]]] = []
        self.asserts: list[list[tuple]] = []  # (DFA over the rest of the text, target)
        self.back: list[list[tuple]] = []  # (set of allowed previous-letter kinds, target)

    def new(self) -> int:
        self.eps.append([])
        self.edges.append([])
        self.asserts.append([])
        self.back.append([])
        return len(self.eps) - 1


START_KIND, WORD_KIND, OTHER_KIND, NL_KIND = "start", "w", "n", "nl"
NONEMPTY_WORD = None


class Builder:
    def __init__(self, flags: int = 0, group_marks: dict[int, tuple[int, int]] | None = None):
        self.nfa = NFA()
        self.flags = flags
        self.group_marks = group_marks or {}
        self.uses_prev = False

    def charset(self, items, flags) -> int:
        neg = False
        m = 0
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                m |= self.lit(av, flags)
            elif op is C.RANGE:
                lo, hi = av
                m |= mask(lambda c: lo <= ord(c) <= hi)
                if flags & re.I:
                    m |= mask(lambda c: lo <= ord(c.lower()[0]) <= hi or lo <= ord(c.upper()[0]) <= hi)
                if hi > 0x7F and not mask(lambda c: 0x7F < ord(c) and lo <= ord(c) <= hi):
                    raise Unsupported("non-ASCII character range")
            elif op is C.CATEGORY:
                cm = CATEGORY[av]
                if flags & re.A:
                    asc = mask(str.isascii)
                    base = {C.CATEGORY_NOT_DIGIT: D, C.CATEGORY_NOT_SPACE: S, C.CATEGORY_NOT_WORD: W}.get(av)
                    cm = SIGMA & ~(base & asc) if base is not None else cm & asc
                m |= cm
            else:
                raise Unsupported(str(op))
        return (SIGMA & ~m) if neg else m

    def lit(self, code: int, flags) -> int:
        c = chr(code)
        m = letter(c)
        if flags & re.I and c.isascii():
            m |= letter(c.lower()) | letter(c.upper())
        return m

    def seq(self, items, a: int, flags: int) -> int:
        for op, av in items:
            a = self.one(op, av, a, flags)
        return a

    def one(self, op, av, a, flags) -> int:
        n = self.nfa
        if op is C.LITERAL:
            return self.edge(a, self.lit(av, flags))
        if op is C.NOT_LITERAL:
            return self.edge(a, SIGMA & ~self.lit(av, flags))
        if op is C.ANY:
            return self.edge(a, SIGMA if flags & re.S else SIGMA & ~NL)
        if op is C.IN:
            return self.edge(a, self.charset(av, flags))
        if op is C.BRANCH:
            end = n.new()
            for alt in av[1]:
                s = n.new()
                n.eps[a].append(s)
                n.eps[self.seq(alt, s, flags)].append(end)
            return end
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            f = (flags | add) & ~rem
            if gid in self.group_marks:
                o, c = self.group_marks[gid]
                a = self.edge(a, o)
                a = self.seq(sub, a, f)
                return self.edge(a, c)
            return self.seq(sub, a, f)
        if op is C.ATOMIC_GROUP:
            return self.seq(av, a, flags)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if lo > 300 or (hi is not C.MAXREPEAT and hi > 300):
                raise Unsupported("large repeat count")
            for _ in range(lo):
                a = self.seq(sub, a, flags)
            if hi is C.MAXREPEAT:
                s = n.new()
                e = n.new()
                n.eps[a].append(s)
                n.eps[s].append(e)
                b = self.seq(sub, s, flags)
                n.eps[b].append(s)
                return e
            end = n.new()
            n.eps[a].append(end)
            for _ in range(hi - lo):
                a = self.seq(sub, a, flags)
                n.eps[a].append(end)
            return end
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction != 1:
                if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
                    raise Unsupported("look-behind")
                raise Unsupported("look-behind")
            d = items_dfa(list(sub), flags)
            d = concat(d, ANYTHING)
            if op is C.ASSERT_NOT:
                d = SIGMA_STAR - d
            t = n.new()
            n.asserts[a].append((d, t))
            return t
        if op is C.AT:
            t = n.new()
            self.uses_prev = True
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                kinds = {START_KIND} | ({NL_KIND} if av is C.AT_BEGINNING and flags & re.M else set())
                n.back[a].append((frozenset(kinds), t))
            elif av is C.AT_END_STRING:
                n.asserts[a].append((EPS, t))
            elif av is C.AT_END:
                d = EPS | from_mask(NL)
                if flags & re.M:
                    d = EPS | concat(from_mask(NL), ANYTHING)
                n.asserts[a].append((d, t))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                wn = concat(from_mask(W), ANYTHING)
                nw = SIGMA_STAR - wn
                if av is C.AT_NON_BOUNDARY:
                    wn, nw = nw, wn
                m1, m2 = n.new(), n.new()
                n.back[a].append((frozenset({WORD_KIND}), m1))
                n.asserts[m1].append((nw, t))
                n.back[a].append((frozenset({START_KIND, OTHER_KIND, NL_KIND}), m2))
                n.asserts[m2].append((wn, t))
            else:
                raise Unsupported(str(av))
            return t
        raise Unsupported(str(op))

    def edge(self, a, m) -> int:
        b = self.nfa.new()
        self.nfa.edges[a].append((m, b))
        return b


LIMIT = 6000


def determinize(n: NFA, start: int, final: int, uses_prev: bool, extra_masks=()) -> DFA:
    """Subset construction over (state, pending look-ahead obligations, kind of the previous letter)."""
    duts: list[DFA] = []
    masks = {m for es in n.edges for m, _ in es} | set(extra_masks)
    seen_d = {}

    def dut(d: DFA) -> int:
        k = id(d)
        if k not in seen_d:
            seen_d[k] = len(duts)
            duts.append(d)
        return seen_d[k]

    for lst in n.asserts:
        for d, _ in lst:
            dut(d)
    for d in duts:
        masks |= set(d.classes)
    if uses_prev:
        masks |= {W, NL}
    masks |= {SIGMA} | {mark(i) for i in range(MARKS) if any(m >> N & (1 << i) for m in masks)}
    atoms = [ALLSYM]
    for m in masks:
        nxt = []
        for a in atoms:
            for x in (a & m, a & ~m):
                if x:
                    nxt.append(x)
        atoms = nxt

    def closure(confs):
        out = set()
        todo = list(confs)
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.add(c)
            q, obl, prev = c
            for t in n.eps[q]:
                todo.append((t, obl, prev))
            for d, t in n.asserts[q]:
                todo.append((t, obl | {(dut(d), 0)}, prev))
            for kinds, t in n.back[q]:
                if prev in kinds:
                    todo.append((t, obl, prev))
        return frozenset(out)

    deads = [set(range(len(d.trans))) - d.reverse_reach() for d in duts]
    sure = [_universal(d) for d in duts]
    s0 = closure([(start, frozenset(), START_KIND if uses_prev else "")])
    states = {s0: 0}
    order = [s0]
    trans = []
    i = 0
    while i < len(order):
        cur = order[i]
        row = []
        for atom in atoms:
            nxt = set()
            is_mark = not atom & SIGMA
            for q, obl, prev in cur:
                for m, t in n.edges[q]:
                    if m & atom:
                        if is_mark:
                            no, np = obl, prev
                        else:
                            no = set()
                            ok = True
                            for di, st in obl:
                                ns = duts[di].step(st, atom & -atom)
                                if ns in deads[di]:
                                    ok = False
                                    break
                                if ns not in sure[di]:
                                    no.add((di, ns))
                            if not ok:
                                continue
                            no = frozenset(no)
                            np = prev
                            if uses_prev:
                                np = WORD_KIND if atom & W else NL_KIND if atom & NL else OTHER_KIND
                        nxt.add((t, no, np))
            c = closure(nxt)
            k = states.get(c)
            if k is None:
                k = states[c] = len(order)
                order.append(c)
                if len(order) > LIMIT:
                    raise Unsupported("automaton too large")
            row.append(k)
        trans.append(row)
        i += 1
    acc = set()
    for i, st in enumerate(order):
        for q, obl, prev in st:
            if q == final and all(s in duts[d].acc for d, s in obl):
                acc.add(i)
                break
    return DFA(atoms, trans, acc).minimize()


def _universal(d: DFA) -> set[int]:
    """states from which every text is accepted"""
    bad = set(range(len(d.trans))) - set(d.acc)
    changed = True
    while changed:
        changed = False
        for s, row in enumerate(d.trans):
            if s not in bad and any(t in bad for k, t in enumerate(row) if d.classes[k] & SIGMA):
                bad.add(s)
                changed = True
    return set(range(len(d.trans))) - bad


def items_dfa(items, flags) -> DFA:
    b = Builder(flags)
    s = b.nfa.new()
    e = b.seq(items, s, flags)
    return determinize(b.nfa, s, e, b.uses_prev)


def from_mask(m: int) -> DFA:
    rest = ALLSYM & ~m
    return DFA([m, rest], [[1, 2], [2, 2], [2, 2]], {1})


EPS = DFA([ALLSYM], [[1], [1]], {0})
EMPTY = DFA([ALLSYM], [[0]], set())
SIGMA_STAR = DFA([SIGMA, ALLSYM & ~SIGMA], [[0, 1], [1, 1]], {0})
ANYTHING = SIGMA_STAR


def word(w: str) -> DFA:
    n = NFA()
    s = a = n.new()
    for c in w:
        b = n.new()
        n.edges[a].append((letter(c), b))
        a = b
    return determinize(n, s, a, False)


def _embed(n: NFA, d: DFA):
    base = len(n.eps)
    for _ in d.trans:
        n.new()
    live = d.reverse_reach()
    for s, row in enumerate(d.trans):
        for k, t in enumerate(row):
            if t in live:
                n.edges[base + s].append((d.classes[k], base + t))
    return base, [base + s for s in d.acc]


def concat(*ds: DFA) -> DFA:
    n = NFA()
    first = None
    outs: list[int] = []
    for d in ds:
        base, acc = _embed(n, d)
        if first is None:
            first = base
        else:
            for o in outs:
                n.eps[o].append(base)
        outs = acc
    end = n.new()
    for o in outs:
        n.eps[o].append(end)
    return determinize(n, first, end, False)


def star(d: DFA) -> DFA:
    n = NFA()
    s = n.new()
    base, acc = _embed(n, d)
    n.eps[s].append(base)
    for a in acc:
        n.eps[a].append(s)
    return determinize(n, s, s, False)


def union(*ds: DFA) -> DFA:
    r = EMPTY
    for d in ds:
        r = r | d
    return r


def words(*ws: str) -> DFA:
    n = NFA()
    s, e = n.new(), n.new()
    nodes = {"": s}
    for w in ws:
        for i, c in enumerate(w):
            if w[: i + 1] not in nodes:
                b = nodes[w[: i + 1]] = n.new()
                n.edges[nodes[w[:i]]].append((letter(c), b))
        n.eps[nodes[w]].append(e)
    return determinize(n, s, e, False)


def erase(d: DFA, m: int) -> DFA:
    """replace the letters of ``m`` by the empty word"""
    n = NFA()
    base, acc = _embed(n, d)
    for s in range(len(n.eps)):
        keep = []
        for mm, t in n.edges[s]:
            if mm & m:
                n.eps[s].append(t)
            if mm & ~m:
                keep.append((mm & ~m, t))
        n.edges[s] = keep
    end = n.new()
    for a in acc:
        n.eps[a].append(end)
    return determinize(n, base, end, False)


def loops(d: DFA, m: int) -> DFA:
    """allow the letters of ``m`` anywhere"""
    e = erase(d, 0)
    n = NFA()
    base, acc = _embed(n, e)
    for s in range(len(n.eps)):
        n.edges[s] = [(mm & ~m, t) for mm, t in n.edges[s] if mm & ~m]
        n.edges[s].append((m, s))
    end = n.new()
    for a in acc:
        n.eps[a].append(end)
    return determinize(n, base, end, False)


def quotient(d: DFA, pre: str, post: str) -> DFA:
    """{ h : pre h post in d }"""
    s = d.run(pre)
    acc = {q for q in range(len(d.trans)) if d.run(post, q) in d.acc}
    n = NFA()
    base, _ = _embed(n, DFA(d.classes, d.trans, acc | set()))
    # embed keeps only live edges with respect to acc; rebuild directly instead
    n = NFA()
    for _ in d.trans:
        n.new()
    for q, row in enumerate(d.trans):
        for k, t in enumerate(row):
            n.edges[q].append((d.classes[k], t))
    end = n.new()
    for q in acc:
        n.eps[q].append(end)
    return determinize(n, s, end, False)


def length_dfa(op: str, k: int) -> DFA:
    """words whose length satisfies ``len op k``"""
    k = max(k, -1)
    d = _lengths.get((op, k))
    if d is not None:
        return d
    n = k + 2
    trans = []
    for i in range(n + 1):
        trans.append([min(i + 1, n), n + 1])
    trans.append([n + 1, n + 1])
    import operator as o
    f = {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge, "==": o.eq, "!=": o.ne}[op]
    acc = {i for i in range(n + 1) if f(i, k)}
    d = _lengths[op, k] = DFA([SIGMA, ALLSYM & ~SIGMA], trans, acc).minimize()
    return d


_lengths: dict = {}


def count_dfa(op: str, k: int, ch: str) -> DFA:
    """words in which the number of occurrences of a character satisfies ``op k``"""
    k = max(k, -1)
    d = _lengths.get((op, k, ch))
    if d is not None:
        return d
    n = k + 2
    one = letter(ch)
    one = one if isinstance(one, int) else 0
    trans = [[min(i + 1, n), i, n + 1] for i in range(n + 1)]
    trans.append([n + 1] * 3)
    import operator as o
    f = {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge, "==": o.eq, "!=": o.ne}[op]
    d = _lengths[op, k, ch] = DFA([one, SIGMA & ~one, ALLSYM & ~SIGMA], trans, {i for i in range(n + 1) if f(i, k)}).minimize()
    return d


# --------------------------------------------------------------------------- patterns
RECURSION_DEPTH = 1


def expand_recursion(pattern: str, depth: int = RECURSION_DEPTH) -> str:
    """unfold (?R) and (?&name) textually up to a depth; the innermost call matches nothing"""
    if "(?R)" not in pattern and "(?&" not in pattern and "(?P>" not in pattern:
        return pattern
    groups = named_groups(pattern)

    def body(name, d):
        src = pattern if name is None else groups[name]
        return sub(src, d)

    def sub(src, d):
        def rep(m):
            name = m.group(1) or m.group(2)
            if d <= 0:
                return "(?!)"
            return "(?:" + anonymous(body(name, d - 1)) + ")"
        return re.sub(r"\(\?R\)|\(\?&(\w+)\)|\(\?P>(\w+)\)", rep, src)

    return sub(pattern, depth)


def anonymous(p: str) -> str:
    return re.sub(r"\(\?P<\w+>", "(?:", p)


def named_groups(pattern: str) -> dict[str, str]:
    out = {}
    for m in re.finditer(r"\(\?P<(\w+)>", pattern):
        i, depth, incls = m.start(), 0, False
        j = i
        while j < len(pattern):
            ch = pattern[j]
            if ch == "\\":
                j += 2
                continue
            if incls:
                incls = ch != "]"
            elif ch == "[":
                incls = True
                if pattern[j + 1 : j + 2] == "^":
                    j += 1
                if pattern[j + 1 : j + 2] == "]":
                    j += 1
            elif ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        out[m.group(1)] = pattern[i : j + 1]
    return out


@lru_cache(maxsize=None)
def parse(pattern: str, flags: int = 0):
    p = expand_recursion(pattern)
    try:
        return sre.parse(p, flags)
    except Exception as e:  # noqa: BLE001
        raise Unsupported(f"{pattern!r}: {e}") from None


@lru_cache(maxsize=None)
def lang(pattern: str, flags: int = 0) -> DFA:
    """the language of a pattern that matches a whole text"""
    t = parse(pattern, flags)
    b = Builder(t.state.flags)
    s = b.nfa.new()
    e = b.seq(list(t), s, t.state.flags)
    return determinize(b.nfa, s, e, b.uses_prev)


@lru_cache(maxsize=None)
def matches(pattern: str, flags: int = 0) -> DFA:
    """{ w END f : the pattern can match w when the text continues with f }"""
    t = parse(pattern, flags)
    b = Builder(t.state.flags)
    s = b.nfa.new()
    e = b.seq(list(t), s, t.state.flags)
    e = b.edge(e, END)
    b.nfa.edges[e].append((SIGMA, e))
    return determinize(b.nfa, s, e, b.uses_prev, extra_masks=(END,))
