import numpy as np, scipy.sparse as sps
from irspack.optimization.parameter_range import *
from irspack.optimization.parameter_range import is_valid_param_name
from irspack.recommenders.base import BaseRecommender, RecommenderMeta
import irspack

class T:
    def __init__(self): self.calls = []; self.answer = object()
    def _rec(self, kind, name, a, kw):
        self.calls.append((kind, name, a, kw)); self.answer = object(); self.answers = getattr(self, "answers", []) + [(name, self.answer)]; return self.answer
    def suggest_float(self, name, low, high, *, step=None, log=False): return self._rec("float", name, (low, high, step), log)
    def suggest_int(self, name, low, high, *, step=1, log=False): return self._rec("int", name, (low, high, step), log)
    def suggest_categorical(self, name, choices): return self._rec("cat", name, choices, None)

def draw(c, name):
    k = c.integer(0, 4)
    if k == 0:
        lo = c.rng.randn() * 10; hi = lo + c.pick([0.0, c.rng.rand() * 5]); return UniformFloatRange(name, lo, hi), ("float", (lo, hi, None), False)
    if k == 1:
        lo = 10 ** c.rng.uniform(-5, 2); hi = lo * c.pick([1.0, 1 + c.rng.rand() * 50]); return LogUniformFloatRange(name, lo, hi), ("float", (lo, hi, None), True)
    if k == 2:
        lo = c.integer(-20, 20); hi = lo + c.integer(0, 40); st = c.pick([None, 1, 2, 3, 5])
        return (UniformIntegerRange(name, lo, hi) if st is None else UniformIntegerRange(name, lo, hi, st)), ("int", (lo, hi, st or 1), False)
    if k == 3:
        lo = c.integer(1, 20); hi = lo + c.integer(0, 400); return LogUniformIntegerRange(name, lo, hi), ("int", (lo, hi, 1), True)
    ch = c.pick([["a"], ["a", "b"], [1, 2, 3], [None, True], [3, "x", 1.5]]); return CategoricalRange(name, ch), ("cat", list(ch), None)

def same(a, b):
    return a[0] == b[0] and list(a[1]) == list(b[1]) and a[2] == b[2]

def ranges(c):
    name = c.pick(["a", "top_k", "alpha-1", "X9", "l2_reg_", "b0", "n_components", "a--b__c"])
    r, exp = draw(c, name)
    c.note(range=type(r).__name__, name=name, expected=exp)
    c.expect(r.name == name, "name is %r" % r.name)
    t = T()
    pre = c.pick(["", "pre_", "m.", "x"])
    v = r.suggest(t, prefix=pre) if (pre or c.chance()) else r.suggest(t)
    c.expect(len(t.calls) == 1, "%d suggestions asked" % len(t.calls), calls=t.calls)
    kind, nm, a, kw = t.calls[0]
    c.expect(nm == pre + name, "asked for %r, expected %r" % (nm, pre + name))
    c.expect(same((kind, a, kw), exp), "asked %r, declared %r" % (t.calls[0], exp))
    c.expect(v is t.answer, "returned something else than the trial's answer")

BAD = ["", "_a", "-a", "a b", "a.b", "é", "a$", " a", "$x", "a+b", "__", "a\tb"]
GOOD = ["a", "A1", "0a", "a_", "a-b", "a_-b", "9"]

def rejected(c):
    lo = c.integer(1, 50); hi = lo - c.integer(1, 20)
    for K in (UniformFloatRange, LogUniformFloatRange, UniformIntegerRange, LogUniformIntegerRange):
        with c.raises("%s(%r, %r) accepted" % (K.__name__, lo, hi)): K("a", lo, hi)
        K("a", lo, lo)
        b = c.pick(BAD)
        with c.raises("name %r accepted by %s" % (b, K.__name__)): K(b, 1, 2)
        K(c.pick(GOOD), 1, 2)
    with c.raises("UniformFloatRange(0.3, 0.2) accepted"): UniformFloatRange("a", 0.3, 0.3 - 1e-9)
    with c.raises("UniformIntegerRange with step accepts reversed bounds"): UniformIntegerRange("a", lo, hi, c.integer(1, 3))
    b = c.pick(BAD)
    with c.raises("name %r accepted by CategoricalRange" % b): CategoricalRange(b, [1])
    for b in BAD: c.expect(is_valid_param_name(b) is False, "%r counts as a valid name" % b)
    for g in GOOD: c.expect(is_valid_param_name(g) is True, "%r counts as an invalid name" % g)

def default_suggest(c):
    n = c.integer(0, 5)
    names = ["p%d" % i for i in range(n)]
    rs = [draw(c, x) for x in names]
    fixed = {x: 1 for x in names if c.chance(0.4)}
    if c.chance(0.3): fixed["other"] = 2
    if c.chance(0.3) and names: fixed[names[0]] = c.pick([None, 0, False])
    K = type("K", (BaseRecommender,), dict(default_tune_range=[r for r, _ in rs], _learn=lambda s: None, get_score=lambda s, u: None), register_class=False)
    t = T()
    out = K.default_suggest_parameter(t, fixed)
    want = [x for x in names if x not in fixed]
    c.note(names=names, fixed=fixed)
    c.expect(set(out) == set(want), "suggested %r, expected %r" % (sorted(out), want))
    c.expect(sorted(x[1] for x in t.calls) == sorted(want), "asked for %r, expected %r" % ([x[1] for x in t.calls], want))
    ans = dict(getattr(t, "answers", []))
    for x in want:
        c.expect(out[x] is ans[x], "%s has the answer of another parameter" % x)
        i = names.index(x); call = [q for q in t.calls if q[1] == x][0]
        c.expect(same((call[0], call[2], call[3]), rs[i][1]), "asked %r, declared %r" % (call, rs[i][1]))

def builtin(c):
    """every registered model: default suggestion covers its whole tune range minus the fixed ones"""
    Ks = [K for K in RecommenderMeta.recommender_name_vs_recommender_class.values() if isinstance(getattr(K, "default_tune_range", None), list)]
    K = Ks[c.round % len(Ks)]
    names = [r.name for r in K.default_tune_range]
    fixed = {x: 1 for x in names if c.chance(0.3)}
    t = T()
    out = K.default_suggest_parameter(t, fixed)
    c.note(model=K.__name__, fixed=fixed)
    c.expect(set(out) == set(names) - set(fixed), "%s suggested %r of %r with %r fixed" % (K.__name__, sorted(out), names, sorted(fixed)))
    for kind, nm, a, kw in t.calls:
        if kind != "cat": c.expect(a[0] <= a[1], "%s: bounds %r" % (nm, a))

CASES = [ranges, ranges, rejected, default_suggest, builtin]
MAXN = dict(quick=6000, thorough=100000)
