"""Source templates derived from the grammar itself: for every production and every choice of a production below it, the shortest
text whose derivation contains both.  Nothing is known about the value such a text must give; it must be plain, typed and
convertible."""
from __future__ import annotations

import itertools

import lark
from lark import Token

from . import dom, relang as R, spec, statements as ST
from .runner import Task
from .spec import F, N, S, Case, flat, hole


class Uncovered(Exception):
    pass


class Grammar:
    def __init__(self, real):
        self.real = real
        self.rules = list(real.rules)
        self.by: dict = {}
        for r in self.rules:
            self.by.setdefault(r.origin, []).append(r)
        self.start = next(o for o in self.by if o.name == real.options.start[0])
        self.terms = {t.name: t for t in real.terminals}
        self.cost()
        self.contexts()

    def rule_cost(self, r):
        c = 0
        for s in r.expansion:
            c += 1 if s.is_term else self.best.get(s, (1e9,))[0]
        return c + 0.001

    def cost(self):
        self.best: dict = {}
        changed = True
        while changed:
            changed = False
            for r in self.rules:
                c = self.rule_cost(r)
                if c < self.best.get(r.origin, (1e9,))[0]:
                    self.best[r.origin] = (c, r)
                    changed = True

    def contexts(self):
        """for every nonterminal the cheapest (rule, position) above it"""
        self.up = {self.start: (0, None)}
        changed = True
        while changed:
            changed = False
            for r in self.rules:
                if r.origin not in self.up:
                    continue
                base = self.up[r.origin][0] + self.rule_cost(r)
                for i, s in enumerate(r.expansion):
                    if not s.is_term:
                        c = base - self.best[s][0] + 0.001
                        if c < self.up.get(s, (1e9,))[0] - 1e-9 and s is not self.start:
                            self.up[s] = (c, (r, i))
                            changed = True

    def expand(self, s):
        if s.is_term:
            return [s.name]
        return [t for x in self.best[s][1].expansion for t in self.expand(x)]

    def with_rules(self, rules, positions):
        """tokens of rules[0] with rules[1] at positions[0], and so on"""
        r = rules[0]
        out = []
        for i, s in enumerate(r.expansion):
            if len(rules) > 1 and i == positions[0]:
                out += self.with_rules(rules[1:], positions[1:])
            else:
                out += self.expand(s)
        return out

    def sentence(self, rules, positions):
        mid = self.with_rules(rules, positions)
        o = rules[0].origin
        while self.up[o][1] is not None:
            r, i = self.up[o][1]
            left = [t for s in r.expansion[:i] for t in self.expand(s)]
            right = [t for s in r.expansion[i + 1:] for t in self.expand(s)]
            mid = left + mid + right
            o = r.origin
        return mid

    def pairs(self):
        for r in self.rules:
            if r.origin not in self.up:
                continue
            yield [r], []
            for i, s in enumerate(r.expansion):
                if not s.is_term:
                    for q in self.by[s]:
                        yield [r, q], [i]

    def triples(self):
        for rs, ps in list(self.pairs()):
            if len(rs) == 2:
                for i, s in enumerate(rs[1].expansion):
                    if not s.is_term:
                        for q in self.by[s]:
                            yield [*rs, q], [*ps, i]

    # ------------------------------------------------------------------ texts
    def words(self, name, k, strings):
        t = self.terms.get(name)
        out = []
        if t is not None and t.pattern.type == "str":
            out.append([t.pattern.value])
        if t is not None and t.pattern.type == "re" and qualified(t.pattern.to_regexp()):
            out.append([decorator_word(k)])
        out += [[word(k)], [word(k), "("], *strings, [N(f"g{k}")], [decorator_word(k)], ["'''", spec.M1(f"g{k}"), "'''"], ["\n"], ["listKeys"],
                ["items ("], ["*"], [" "], ["// zq\n"], ["'zq'"]]
        return out

    def text(self, tokens, pick):
        """segments of a text with exactly these tokens; pick chooses among the forms of quoted text"""
        ip = self.real.parse_interactive("")
        lexers = ip.lexer_thread.lexer.lexers
        segs: list = []
        rep = ""
        state = ip.parser_state
        for k, name in enumerate(tokens):
            lx = lexers[state.position]
            done = False
            forms = quoted(k)
            p = pick(k)
            strings = [forms[p]]
            for sep, w in itertools.product((" ", "", "\n"), self.words(name, k, strings)):
                if sep == " " and rep[-1:] in ("", "\n"):
                    sep = ""
                wr = "".join(x if isinstance(x, str) else x.rep for x in w)
                cand = rep + sep + wr
                try:
                    toks = scan(lx, cand, len(rep))
                except lark.exceptions.LarkError:
                    continue
                if [t for t, v, ign in toks if not ign] == [name] and toks[-1][1] == wr:
                    segs += [sep, *w] if sep else w
                    rep = cand
                    done = True
                    break
            if not done:
                raise Uncovered(f"no word for {name}")
            ip.feed_token(Token(name, wr))
        return segs, rep

    def used(self, rep):
        """the productions of the parse of a text"""
        ip = self.real.parse_interactive(rep)
        out = set()
        ps = ip.parser_state
        table = ps.parse_conf.parse_table.states
        stack = [ps.position]

        def feed(tok):
            while True:
                action, arg = table[stack[-1]][tok]
                if action.name == "Shift":
                    stack.append(arg)
                    return
                out.add(arg)
                n = len(arg.expansion)
                if n:
                    del stack[-n:]
                _, new = table[stack[-1]][arg.origin.name]
                stack.append(new)
                if tok == "$END" and stack[-1] == ps.parse_conf.end_state:
                    return

        for t in ip.lexer_thread.lex(ip.parser_state):
            ip.feed_token(t)
            feed(t.type)
        feed("$END")
        return out


def scan(lx, text, pos):
    """tokens from pos to the end"""
    out = []
    sl = _slice(text)
    while pos < len(text):
        m = lx.match(sl, pos)
        if not m:
            raise lark.exceptions.UnexpectedCharacters(text, pos, 1, 1)
        val, typ = m
        name = typ
        if typ in lx.callback:
            t = lx.callback[typ](Token(typ, val))
            name = t.type
        out.append((name, val, typ in lx.ignore_types))
        pos += len(val)
    return out


def _slice(text):
    try:
        from lark.utils import TextSlice
        return TextSlice(text, 0, len(text))
    except ImportError:
        return text


def decorator_word(k):
    from .checks import unknown_decorators
    if "ud" not in spec._langs:
        spec._langs["ud"] = unknown_decorators()
    return hole(f"gd{k}", "D", spec._langs["ud"], f"zqdeco{k}")


_qualified: dict = {}


def qualified(rx):
    if rx not in _qualified:
        import regex
        _qualified[rx] = regex.fullmatch(rx, "sys.zq") is not None
    return _qualified[rx]


def word(k):
    """an identifier that is no built-in function and no keyword"""
    return hole(f"gw{k}", "W", spec.unknown_functions(), f"zqw{k}", "id")


def quoted(k):
    return [["'", S(f"g{k}"), "'"], ["'", ST.TN(f"g{k}"), "@", ST.VN(f"g{k}"), "'"], ["'tenant'"]]


_g: list = []


def grammar():
    if not _g:
        w = spec.W
        w.parser()
        real = w.larks[-1].real if w.larks else None
        _g.append(Grammar(real))
    return _g[0]


def rule_text(r):
    return f"{r.alias or r.origin.name}: " + " ".join(s.name for s in r.expansion)


def case_of(rules, positions, judge):
    g = grammar()
    name = " > ".join(rule_text(r) for r in rules)
    tokens = g.sentence(rules, positions)
    nq = [k for k, t in enumerate(tokens) if "QUOTED" in t or "STRING" in t]

    def run(st_):
        last = None
        st_.extra["grammar_derivations"] = st_.extra.get("grammar_derivations", 0) + 1
        for combo in itertools.islice(itertools.product(range(3), repeat=min(len(nq), 4)), 81):
            choice = dict(zip(nq, combo))
            try:
                segs, rep = g.text(tokens, lambda k: choice.get(k, 0))
                got = g.used(rep)
            except (Uncovered, lark.exceptions.LarkError, KeyError) as e:
                st_.extra["derivations_not_reachable"] = st_.extra.get("derivations_not_reachable", 0) + 1
                return []
            if not all(r in got for r in rules):
                st_.extra["derivations_resolved_otherwise"] = st_.extra.get("derivations_resolved_otherwise", 0) + 1
                return []
            c = Case(f"derivation {name}", segs, None, judge=judge)
            fs = []
            rejected = False
            res: dict = {}
            for p, o in spec.outcomes(c, st_):
                if o.status == "engine":
                    st_.undecided.append((c.name, str(o.exc)[:600]))
                    continue
                st_.comparisons += 1
                if o.status == "raised" and type(o.exc).__name__ == "ValueError":
                    rejected = True
                    last = (c, o, p)
                    continue
                for key, msg, loc in judge(c, p, o, None):
                    res.setdefault(key, spec.Finding(c, f"{c.name}|{key}", msg, loc, p))
            if not rejected or res:
                return list(res.values())
        if last is not None:
            c, o, p = last
            return [spec.Finding(c, f"{c.name}|{key}", msg, loc, p) for key, msg, loc in judge(c, p, o, None)]
        return []
    return Task(f"derivation {name}", run)


def tasks(judge, tier="quick"):
    g = grammar()
    if tier == "thorough":
        return [case_of(r, p, judge) for r, p in [*g.pairs(), *g.triples()]]
    out, seen = [], set()
    for r, p in g.pairs():
        # productions which differ only in tokens the tree leaves out count once
        key = tuple((q.alias or q.origin.name, q.origin.name, tuple(s.name for s in q.expansion if not (s.is_term and s.filter_out)))
                    for q in r) + tuple(sum(not (s.is_term and s.filter_out) for s in q.expansion[:i]) for q, i in zip(r, p))
        if key not in seen:
            seen.add(key)
            out.append(case_of(r, p, judge))
    return out
