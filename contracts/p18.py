"""P18: ParameterRange subclasses, default_suggest_parameter"""
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.remodel import matches
from pyvc.rt import VSeq, IdSeq, VMap, VDict, SStr, atom

MOD = "irspack.optimization.parameter_range"


class Trial:
    """optuna's trial: records what it is asked for (arguments normalised to the documented signature)"""

    def __init__(self):
        self.calls = []

    def _r(self, kind, **k):
        tok = Token("answer%d" % len(self.calls))
        self.calls.append((kind, k, tok))
        return tok

    def suggest_float(self, name, low, high, *, step=None, log=False):
        return self._r("float", name=name, low=low, high=high, step=step, log=log)

    def suggest_int(self, name, low, high, *, step=1, log=False):
        return self._r("int", name=name, low=low, high=high, step=step, log=log)

    def suggest_categorical(self, name, choices):
        return self._r("categorical", name=name, choices=choices)

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)

    def suggest_loguniform(self, name, low, high):
        return self.suggest_float(name, low, high, log=True)


def eq(a, b):
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        return a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return same(a, b)
    return a is b or (type(a) is type(b) and a == b)


DOCUMENTED = r"[a-zA-Z\d][a-zA-Z\d\-_]*"


def run(V):
    L = V.loader()
    m = L.load(MOD)

    def ranges(E, cls, kind, log, stepped, numeric):
        E.use("optuna Trial.suggest_float(name, low, high, *, step=None, log=False), suggest_int(name, low, high, *, step=1, log=False), suggest_categorical(name, choices)")
        E.note("parameter names without a trailing newline; ASCII letters and digits")
        name = atom("name")
        ok_name = E.branch(matches(name, DOCUMENTED, "fullmatch"))
        E.assume(z3.Not(matches(name, r"[\s\S]*\n", "fullmatch")))
        args = []
        ok = True
        if numeric:
            mk = E.int if kind == "int" else E.float
            low, high = mk("low"), mk("high")
            args = [low, high]
            ok = E.branch(bterm(low <= high))
            step = 1
            if stepped and E.choose(2, "step given"):
                step = E.int("step", lo=1)
                args.append(step)
        else:
            choices = Token("choices")
            args = [choices]
        c = getattr(m, cls)
        out = E.attempt(c, name, *args)
        if not ok_name:
            E.reach(cls + " malformed name")
            E.prove("%s: a malformed name is rejected" % cls, out.raised(ValueError))
            return
        if not ok:
            E.reach(cls + " low > high")
            E.prove("%s: low above high is rejected" % cls, out.raised(ValueError))
            return
        E.prove("%s: a well-formed range is accepted" % cls, out.returned)
        if not out.returned:
            return
        r = out.value
        E.prove("%s: the range keeps its name" % cls, eq(r.name, name))
        tr = Trial()
        if E.choose(2, "prefix given"):
            prefix = atom("prefix")
            s = E.attempt(r.suggest, tr, prefix)
            want = SStr([prefix, name])
        else:
            s = E.attempt(r.suggest, tr)
            want = name
        E.reach(cls + " suggest")
        E.prove("%s.suggest: one suggestion of the declared kind is asked for" % cls, s.returned and len(tr.calls) == 1 and tr.calls[0][0] == kind)
        if not (s.returned and len(tr.calls) == 1 and tr.calls[0][0] == kind):
            return
        _, k, tok = tr.calls[0]
        E.prove("%s.suggest: the trial's answer is returned" % cls, s.value is tok)
        E.prove("%s.suggest: asked under the prefixed name" % cls, eq(k["name"], want))
        if numeric:
            E.prove("%s.suggest: asked with the declared bounds" % cls, z3.And(bterm(eq(k["low"], low)), bterm(eq(k["high"], high))))
            E.prove("%s.suggest: asked with the declared logarithmic flag" % cls, k["log"] is log)
            if kind == "int":
                E.prove("%s.suggest: asked with the declared step" % cls, eq(k["step"], step))
            else:
                E.prove("%s.suggest: asked with the declared step" % cls, k["step"] is None)
        else:
            E.prove("%s.suggest: asked with the declared choices" % cls, k["choices"] is choices)

    for cls, kind, log, stepped, numeric in (("UniformFloatRange", "float", False, False, True), ("LogUniformFloatRange", "float", True, False, True), ("UniformIntegerRange", "int", False, True, True),
                                             ("LogUniformIntegerRange", "int", True, False, True), ("CategoricalRange", "categorical", False, False, False)):
        V.explore("%s.%s.__init__/suggest" % (MOD, cls), lambda E, a=(cls, kind, log, stepped, numeric): ranges(E, *a))

    base = L.load("irspack.recommenders.base")

    def default_suggest(E):
        names = IdSeq(hint="param_names")
        E.idseqs.append(names)
        fixed = IdSeq(hint="fixed_names")
        fixed_params = VMap(fixed.n, fixed.at, lambda k: Token("v"), fixed)
        trial = Token("trial")
        seen = []

        class R:
            def __init__(self, k):
                self.k = k
                self.name = names.at(k)

            def suggest(self, t, prefix=""):
                seen.append((t, prefix))
                return ufun("suggestion", self.k)

        class C(base.BaseRecommender, register_class=False):
            default_tune_range = VSeq(names.n, lambda k: R(k))

        k = E.int("k", lo=0, hi=names.n)
        x = names.at(k)
        E.hints.append(k)
        isfixed = fixed.member(x)
        out = E.attempt(C.default_suggest_parameter, trial, fixed_params)
        E.prove("default_suggest_parameter: returns", out.returned)
        if not out.returned:
            return
        res = out.value
        mem = res.member(x)
        E.reach("default_suggest")
        E.prove("default_suggest_parameter: a fixed parameter is not suggested", z3.Implies(bterm(isfixed), z3.Not(bterm(mem))))
        E.prove("default_suggest_parameter: every other tunable parameter is suggested", z3.Implies(z3.Not(bterm(isfixed)), bterm(mem)))
        if E.decide(bterm(mem)):
            E.prove("default_suggest_parameter: its value is that parameter's suggestion", same(res[x], ufun("suggestion", k)))
            E.prove("default_suggest_parameter: the given trial is asked, without prefix", all(t is trial and p == "" for t, p in seen) and len(seen) > 0)
        y = E.id("y")
        E.prove("default_suggest_parameter: nothing but tunable parameters", z3.Implies(bterm(res.member(y)), bterm(names.member(y))))

    V.explore("irspack.recommenders.base.BaseRecommender.default_suggest_parameter", default_suggest)
