"""regular expressions of the verified code: python's own parse tree is turned into a finite automaton; which combinations of
"matches pattern A / matches pattern B" are possible for an arbitrary string is decided by product automata (complete)."""
import re as _re, itertools
import z3
from .core import *
from .core import E
from . import rt

import re._parser as sp
import re._constants as sc

EXTRA = "\u00e9\u0663\u4e00"


class NFA:
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, pred, b):
        self.tr.setdefault(a, []).append((pred, b))


def _item(op, av):
    if op is sc.LITERAL:
        return lambda c: ord(c) == av
    if op is sc.NOT_LITERAL:
        return lambda c: ord(c) != av
    if op is sc.RANGE:
        return lambda c: av[0] <= ord(c) <= av[1]
    if op is sc.ANY:
        return lambda c: c != "\n"
    if op is sc.CATEGORY:
        s = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S"}.get(av)
        if s is None:
            unsupported("regex category")
        p = _re.compile(s)
        return lambda c: p.match(c) is not None
    if op is sc.IN:
        neg = any(o is sc.NEGATE for o, _ in av)
        ps = [_item(o, a) for o, a in av if o is not sc.NEGATE]
        return lambda c: any(p(c) for p in ps) != neg
    unsupported("regex construct %s" % op)


def build(nfa, tree, start):
    cur = start
    for op, av in tree:
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 50 or (hi is not sc.MAXREPEAT and hi > 50):
                unsupported("long regex repetition")
            for _ in range(lo):
                cur = build(nfa, sub, cur)
            if hi is sc.MAXREPEAT:
                s = nfa.new()
                nfa.e(cur, s)
                f = build(nfa, sub, s)
                nfa.e(f, s)
                cur = s
            else:
                end = nfa.new()
                nfa.e(cur, end)
                for _ in range(hi - lo):
                    cur = build(nfa, sub, cur)
                    nfa.e(cur, end)
                cur = end
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                unsupported("regex flags")
            cur = build(nfa, av[-1], cur)
        elif op is sc.BRANCH:
            end = nfa.new()
            for b in av[1]:
                s = nfa.new()
                nfa.e(cur, s)
                nfa.e(build(nfa, b, s), end)
            cur = end
        elif op is sc.AT:
            unsupported("anchor inside a regex")
        else:
            nx = nfa.new()
            nfa.t(cur, _item(op, av), nx)
            cur = nx
    return cur


class Lang:
    """strings on which re.<mode>(pattern) succeeds"""

    def __init__(self, pattern, mode):
        self.pattern, self.mode = pattern, mode
        tree = list(sp.parse(pattern))
        nfa = self.nfa = NFA()
        s = nfa.new()
        self.start = s
        anyc = lambda c: True
        if tree and tree[0][0] is sc.AT and tree[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            tree = tree[1:]
        elif mode == "search":
            nfa.t(s, anyc, s)
        at_end = None
        if tree and tree[-1][0] is sc.AT:
            at_end = tree[-1][1]
            tree = tree[:-1]
        f = build(nfa, tree, s)
        acc = {f}
        if at_end is sc.AT_END and mode != "fullmatch":
            g = nfa.new()
            nfa.t(f, lambda c: c == "\n", g)
            acc.add(g)
        elif at_end in (sc.AT_END, sc.AT_END_STRING) or mode == "fullmatch":
            pass
        elif at_end is None:
            g = nfa.new()
            nfa.e(f, g)
            nfa.t(g, anyc, g)
            acc.add(g)
        else:
            unsupported("anchor")
        self.acc = acc
        self.memo = {}

    def closure(self, st):
        out, todo = set(st), list(st)
        while todo:
            for y in self.nfa.eps.get(todo.pop(), ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def init(self):
        return self.closure({self.start})

    def step(self, st, c):
        k = (st, c)
        if k not in self.memo:
            self.memo[k] = self.closure({b for a in st for p, b in self.nfa.tr.get(a, ()) if p(c)})
        return self.memo[k]

    def accepts(self, st):
        return bool(st & self.acc)


def alphabet(langs):
    cs = {chr(i) for i in range(128)} | set(EXTRA)
    for l in langs:
        cs |= {c for c in l.pattern if ord(c) > 127}
    # merge characters with the same behaviour in every state
    preds = [p for l in langs for ts in l.nfa.tr.values() for p, _ in ts]
    sig = {}
    for c in sorted(cs, key=lambda c: (not c.isalnum(), c)):
        sig.setdefault(tuple(p(c) for p in preds), c)
    return list(sig.values())


_wit = {}


def witness(langs, signs):
    """a string accepted by langs[i] iff signs[i], or None if there is none"""
    key = (tuple((l.pattern, l.mode) for l in langs), tuple(signs))
    if key in _wit:
        return _wit[key]
    al = alphabet(langs)
    st = tuple(l.init() for l in langs)
    seen, todo, res = {st}, [(st, "")], None
    while todo:
        nxt = []
        for s, w in todo:
            if all(l.accepts(x) == g for l, x, g in zip(langs, s, signs)):
                res = w
                nxt = []
                break
            for c in al:
                t = tuple(l.step(x, c) for l, x in zip(langs, s))
                if t not in seen:
                    seen.add(t)
                    nxt.append((t, w + c))
        if res is not None:
            break
        todo = nxt
    _wit[key] = res
    return res


def matches(s, pattern, mode):
    """z3 boolean: the symbolic string matches; consistent with all earlier matches of the same string"""
    if not (isinstance(s, rt.SStr) and len(s.parts) == 1 and isinstance(s.parts[0], rt.SymText)):
        unsupported("regex match of a compound symbolic string")
    a = s.parts[0]
    known = E.strlangs.setdefault(a.name, [])
    for l, b in known:
        if (l.pattern, l.mode) == (pattern, mode):
            return b
    l = Lang(pattern, mode)
    b = z3.Bool(E.fresh_name("match_" + a.name))
    known.append((l, b))
    for signs in itertools.product([True, False], repeat=len(known)):
        if witness([x for x, _ in known], signs) is None:
            E.fact(z3.Not(z3.And(*[x if g else z3.Not(x) for (_, x), g in zip(known, signs)])))
    return b


class Pattern:
    def __init__(self, p, flags=0):
        self.pattern, self.flags = p, flags
        self.native = _re.compile(p, flags)

    def _m(self, mode, s):
        if isinstance(s, str):
            return getattr(self.native, mode)(s)
        if self.flags:
            unsupported("regex flags")
        E.use("re: a pattern matches exactly its regular language (automata built from python's own parse tree; alphabet ASCII plus representatives of other letters and digits)")
        return Token("match") if E.decide(matches(s, self.pattern, mode)) else None

    def match(self, s): return self._m("match", s)
    def fullmatch(self, s): return self._m("fullmatch", s)
    def search(self, s): return self._m("search", s)

    def __getattr__(self, n):
        return getattr(self.native, n)


class ReModule:
    def compile(self, p, flags=0):
        return Pattern(p, flags)

    def _p(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    def match(self, p, s, flags=0): return self._p(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return self._p(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return self._p(p, flags).search(s)

    def __getattr__(self, n):
        return getattr(_re, n)


MODULES = {"re": ReModule()}
