"""Scanning obligations: in the lexer state the LALR tables reach before a token, every word of the token's holes must be
scanned as that very token.  Decided with automata built from the terminals' regular expressions; a word that refutes an
obligation is only reported when Lark's tables, built from the current grammar, confirm it."""
from __future__ import annotations

import re._constants as C

import lark
from lark import Token, Tree

from . import relang as R
from . import spec as S
from .dom import CTX, Hole, Path
from .relang import DFA

FOLLOW = 40


class Ob:
    def __init__(self, lx, type_, segs, follow, holes):
        self.lx, self.type, self.segs, self.follow, self.holes = lx, type_, segs, follow, holes


def driver(real, rep):
    """(lexer, offset, length, type) of every scanned token, ignored ones included"""
    ip = real.parse_interactive(rep)
    lt = ip.lexer_thread
    out = []
    st = lt.state
    ctr = st.line_ctr
    while ctr.char_pos < len(rep):
        lx = lt.lexer.lexers[ip.parser_state.position]
        m = lx.match(st.text, ctr.char_pos)
        if not m:
            raise lark.exceptions.UnexpectedCharacters(rep, ctr.char_pos, ctr.line, ctr.column)
        val, typ = m
        if typ in lx.ignore_types and typ not in lx.callback:
            out.append((lx, ctr.char_pos, len(val), typ, typ))
            ctr.feed(val, typ in lx.newline_types)
            continue
        pos = ctr.char_pos
        tok = lx.next_token(st, ip.parser_state)
        out.append((lx, tok.start_pos, len(str(tok)), typ, tok.type))
        if tok.start_pos != pos:
            raise RuntimeError("lexer driver")
        ip.feed_token(tok)
    return out


def pieces(segs, rep_of):
    pos, out = 0, []
    for s in segs:
        n = len(rep_of(s))
        out.append((pos, pos + n, s))
        pos += n
    return out


def rep_of(s):
    return s.rep if isinstance(s, Hole) else s


def obligations(real, segs):
    """obligations of a template; raises lark errors when the representative text is rejected"""
    rep = "".join(rep_of(s) for s in segs)
    ps = pieces(segs, rep_of)
    out = []
    for lx, a, n, raw, typ in driver(real, rep):
        b = a + n
        tok, hs, ok = [], [], True
        for x, y, s in ps:
            if isinstance(s, Hole):
                if x >= a and y <= b and (x < b or (x == y == a)):
                    if x == y and (x == a or x == b):
                        continue
                    tok.append(s)
                    hs.append(s)
                elif x < b and y > a:
                    ok = False
            elif x < b and y > a:
                tok.append(s[max(a - x, 0): b - x])
        if not hs and ok:
            continue
        follow = []
        left = FOLLOW
        for x, y, s in ps:
            if y <= b or left <= 0:
                continue
            if isinstance(s, Hole):
                follow.append(s)
                left -= 10
            else:
                t = s[max(b - x, 0):][:left]
                follow.append(t)
                left -= len(t)
        if not ok:
            out.append(Ob(lx, typ, None, follow, [s for x, y, s in ps if isinstance(s, Hole) and x < b and y > a]))
            continue
        out.append(Ob(lx, typ, tuple(tok), tuple(follow), tuple(hs)))
        out[-1].raw = raw
    return out


_prefix: dict = {}
_match: dict = {}


def t_regex(t):
    return t.pattern.to_regexp()


def match_lang(t, flags):
    k = (t_regex(t), flags)
    if k not in _match:
        _match[k] = R.matches(*k).minimize()
    return _match[k]


def prefix_lang(t, flags):
    """texts a prefix of which the terminal matches"""
    k = (t_regex(t), flags)
    if k not in _prefix:
        _prefix[k] = R.erase(match_lang(t, flags), R.END).minimize()
    return _prefix[k]


CUT = R.mark(1)
CUT_CHAR = chr(0xE001)
_cut: dict = {}
_kwl: dict = {}


def with_cut(f, t, flags):
    """the language with the border between token and following text allowed anywhere"""
    k = (f.__name__, t_regex(t), flags)
    if k not in _cut:
        _cut[k] = R.loops(f(t, flags), CUT).minimize()
    return _cut[k]


def kwlang(kws):
    if kws not in _kwl:
        _kwl[kws] = R.words(*kws)
    return _kwl[kws]


_seg: dict = {}


def seglang(segs, tail=False) -> DFA:
    k = (tuple((s.name, s.kind) if isinstance(s, Hole) else s for s in segs), tail)
    if k not in _seg:
        ds = [s.lang if isinstance(s, Hole) else R.word(s) for s in segs]
        if tail:
            ds.append(R.SIGMA_STAR)
        _seg[k] = R.concat(*ds).minimize() if ds else R.EPS
    return _seg[k]


def lazy(regex, flags):
    """(has greedy, has lazy) quantifiers"""
    t = R.parse(regex, flags)
    res = [False, False]

    def rec(x):
        for op, av in x:
            if op in (C.MAX_REPEAT, C.POSSESSIVE_REPEAT):
                if av[0] != av[1]:
                    res[0] = True
                rec(av[2])
            elif op is C.MIN_REPEAT:
                if av[0] != av[1]:
                    res[1] = True
                rec(av[2])
            elif op is C.SUBPATTERN:
                rec(av[3])
            elif op is C.BRANCH:
                res[0] = True
                for b in av[1]:
                    rec(b)
            elif op is C.ATOMIC_GROUP:
                rec(av)
            elif op in (C.ASSERT, C.ASSERT_NOT):
                pass
    rec(t)
    return res


_memo: dict = {}


def refute(ob: Ob):
    """texts (token text + following text) for which the token is scanned differently: list of (reason, text)"""
    lx = ob.lx
    lx.scanner  # noqa: B018 - builds the terminal list
    terms = lx.scanner.terminals
    flags = lx.g_regex_flags
    names = [t.name for t in terms]
    cb = lx.callback.get(ob.raw)
    kws = ()
    if cb is not None and hasattr(cb, "scanner"):
        kws = tuple(t.pattern.value for t in cb.scanner.terminals)
    i = names.index(ob.raw)
    tt = seglang(ob.segs)
    key = (tuple(t_regex(t) for t in terms[: i + 1]), kws, ob.raw, ob.type, id(tt),
           tuple((s.name, s.kind) if isinstance(s, Hole) else s for s in ob.follow))
    if key in _memo:
        return _memo[key]
    follow = seglang(ob.follow, True)
    cut = R.from_mask(CUT)
    full = R.concat(tt, cut, follow).minimize()
    out = []
    for u in terms[:i]:
        x = full & with_cut(prefix_lang, u, flags)
        if not x.empty():
            out += [(f"terminal {u.name} matches first", w, u.name) for w in x.sample()[:12]]
    me = with_cut(match_lang, terms[i], flags)
    exact = R.concat(tt, cut, R.from_mask(R.END), follow)
    miss = exact - me
    if not miss.empty():
        out += [(f"terminal {ob.raw} does not match", w, "none") for w in miss.sample()[:12]]
    greedy, lz = lazy(t_regex(terms[i]), flags)
    plus = R.concat(R.from_mask(R.SIGMA), R.SIGMA_STAR)
    if greedy or not lz:
        tail = R.loops(follow, R.END) & R.concat(plus, R.from_mask(R.END), R.SIGMA_STAR)
        longer = R.concat(tt, cut, tail) & me
        if not longer.empty():
            out += [(f"terminal {ob.raw} runs past the end", w, "long") for w in longer.sample()[:12]]
    if lz:
        marked2 = R.loops(tt, R.END) & R.concat(R.SIGMA_STAR, R.from_mask(R.END), plus)
        short = R.concat(marked2, cut, follow) & me
        if not short.empty():
            out += [(f"terminal {ob.raw} ends early", w, "short") for w in short.sample()[:12]]
    if kws and ob.type == ob.raw:
        k = tt & kwlang(kws)
        if not k.empty():
            out += [(f"{w!r} is a keyword there", w + CUT_CHAR, "keyword") for w in k.sample()]
    _memo[key] = out
    return out


def assign(segs, text):
    """words for the holes of segs such that they spell the text before the border"""
    text = text.replace("\ue000", "").split(CUT_CHAR)[0]

    def rec(i, pos):
        if i == len(segs):
            return {} if pos == len(text) else None
        s = segs[i]
        if not isinstance(s, Hole):
            return rec(i + 1, pos + len(s)) if text.startswith(s, pos) else None
        for e in range(pos, len(text) + 1):
            w = text[pos:e]
            if s.lang.accepts(w):
                r = rec(i + 1, e)
                if r is not None and r.get(s, w) == w:
                    return {s: w, **r}
        return None

    return rec(0, 0)


def shape(real, text):
    """token kinds and texts of the tree, or None when rejected"""
    try:
        t = real.parse(text)
    except lark.exceptions.LarkError:
        return None

    def rec(n):
        if isinstance(n, Token):
            return (n.type, str(n))
        if isinstance(n, Tree):
            return (str(n.data), tuple(rec(c) for c in n.children))
        return n
    return rec(t)


def expected_shape(real, segs, words):
    """shape of the representative's tree with the holes' words substituted"""
    rep = "".join(rep_of(s) for s in segs)
    ps = pieces(segs, rep_of)
    t = real.parse(rep)

    def text(a, b):
        out = []
        for x, y, s in ps:
            if isinstance(s, Hole):
                if x >= a and y <= b and x < y:
                    out.append(words.get(s, s.rep))
                elif x < b and y > a:
                    return None
            elif x < b and y > a:
                out.append(s[max(a - x, 0): b - x])
        return "".join(out)

    def rec(n):
        if isinstance(n, Token):
            return (n.type, text(n.start_pos, n.end_pos))
        if isinstance(n, Tree):
            return (str(n.data), tuple(rec(c) for c in n.children))
        return n
    return rec(t)


def confirm(case, real, words):
    """is the text with these words recorded differently from what the template demands?  (kind, message, where) or None"""
    got = shape(real, spelled(case.segs, words))
    if got is not None and got == expected_shape(real, case.segs, words):
        return None
    if got is None:
        return "rejected", "the text is rejected", None
    st = S.Stats()
    fs = S.check(case.bound(words), st)
    if fs:
        return "differs", fs[0].message, fs[0].loc
    return None


def spelled(segs, words):
    return "".join((words.get(s, s.rep) if isinstance(s, Hole) else s) for s in segs)


KINDS = ("I", "S", "SI", "M", "M1", "N", "F", "A", "C", "G", "K")


def check(case, stats, kinds=KINDS):
    """findings for the words the holes of a template stand for"""
    CTX.path = Path()
    real = S.W.larks[0].real
    found = {}
    done = set()
    try:
        obs = obligations(real, case.segs)
    except lark.exceptions.LarkError as e:
        msg = f"the text is rejected: {str(e).splitlines()[0]}"
        return [S.Finding(case, f"{case.name}|rejected", msg, None, detail={"text": case.source()})]
    stats.cases += 1
    for ob in obs:
        if not any(h.kind in kinds for h in ob.holes):
            continue
        stats.extra["obligations"] = stats.extra.get("obligations", 0) + 1
        if ob.segs is None:
            stats.undecided.append((case.name, f"token boundary inside {ob.holes}"))
            continue
        k = (id(ob.lx), ob.raw, ob.segs, ob.follow)
        if k in done:
            continue
        done.add(k)
        try:
            refs = refute(ob)
        except R.Unsupported as e:
            stats.undecided.append((case.name, str(e)))
            continue
        for why, w, code in refs:
            ws = assign(ob.segs, w)
            c = confirm(case, real, ws) if ws is not None else None
            if c is None:
                stats.extra["unconfirmed"] = stats.extra.get("unconfirmed", 0) + 1
                continue
            hk = "/".join(h.kind for h in ob.holes)
            word = "/".join(ws[h] for h in ob.holes) if code == "keyword" else ""
            key = f"{case.name}|{hk}:{code}:{word}|{c[0]}"
            if key not in found:
                say = "; ".join(f"{h.name}={v!r}" for h, v in ws.items())
                found[key] = S.Finding(case, key, f"{why} for {say}: {c[1]}", c[2],
                                       detail={"text": spelled(case.segs, ws), "terminal": ob.raw})
    return list(found.values())
