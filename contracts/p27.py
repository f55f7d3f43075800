"""P27: IALSRecommender.tune_doubling_dimension

tune() and optuna are the environment. Iteration j of the search is identified by the number of earlier tune() calls; D(j) is the documented dimension
(D(0) = initial, D(j+1) = 2 D(j)), low(j) the lowest value of the j-th history."""
import types
import typing
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import VDict, Poison
from pyvc.models import TrialPruned

MOD = "irspack.recommenders.ials"


class Frame:
    def __init__(self, j, nc=None):
        self.j, self.nc = j, nc

    def __setitem__(self, k, v):
        if k != "n_components":
            unsupported("column %r" % (k,))
        self.nc = v

    def assign(self, **k):
        r = Frame(self.j, self.nc)
        for a, b in k.items():
            r[a] = b
        return r

    def copy(self, deep=True):
        return Frame(self.j, self.nc)

    def __getitem__(self, k):
        if k != "value":
            unsupported("column %r" % (k,))
        return Column(self.j)

    @property
    def value(self):
        return Column(self.j)

class Column:
    def __init__(self, j):
        self.j = j

    def min(self, *a, **k):
        return Column.low(self.j)


def run(V):
    core = types.SimpleNamespace(__name__="irspack.recommenders._ials_core", **{n: type(n, (), {}) for n in ("IALSModelConfigBuilder", "IALSSolverConfigBuilder", "IALSTrainer", "LossType", "SolverType")})
    optuna = types.SimpleNamespace(TrialPruned=TrialPruned, exceptions=types.SimpleNamespace(TrialPruned=TrialPruned), Trial=object, Study=object, __name__="optuna")
    pandas = types.SimpleNamespace(__name__="pandas", DataFrame=type("DataFrame", (), {}), Series=type("Series", (), {}))
    L = V.loader({"irspack.recommenders._ials_core": core, "typing_extensions": typing, "optuna": optuna, "pandas": pandas, "pickle": types.SimpleNamespace(__name__="pickle")})
    m = L.load(MOD)

    def search(E):
        E.use("optuna: create_study makes a minimising study unless told otherwise; study.best_params are those of its best trial")
        E.use("pandas.concat keeps the rows of all frames in order; Series.min is the lowest value")
        E.note("tune() (contract P17) returns the parameters and history of one study; at least one of its trials has a finite value")
        E.note("1 <= initial_dimension <= maximal_dimension; the best parameters of a study are those of four representative kinds (two floats, an integer, a category)")
        R, I = z3.RealSort(), z3.IntSort()
        f = {n: E.func(n, "int", t) for n, t in dict(D="int", low="real", bp_alpha0="real", bp_steps="int", best_alpha0="real", best_reg="real", best_steps="int").items()}
        D = lambda j: SInt(f["D"](term(j)))
        low = lambda j: SFloat(f["low"](term(j)))
        d0, dmax = E.int("initial_dimension", lo=1), E.int("maximal_dimension")
        E.assume(d0 <= dmax)
        E.fact(D(0) == d0)
        J = E.int("J", lo=0)
        args = {k: E.int(k, lo=1) for k in ("n_trials_initial", "n_trials_following", "n_startup_trials_initial", "n_startup_trials_following", "max_epoch", "validate_epoch", "score_degradation_max")}
        scale = args["neighborhood_scale"] = E.float("neighborhood_scale")
        E.assume(scale > 1)
        seeded, named = E.choose(2, "seed"), E.choose(2, "prefix")
        seed = E.int("seed") if seeded else None
        prefix = rt.atom("prefix") if named else None
        sug = Token("suggest") if E.choose(2, "initial suggestions") else None
        storage = Token("storage") if E.choose(2, "storage") else None
        data, ev = Token("data"), Token("evaluator")
        g = E.ghost
        g["calls"] = 0
        g["seed"] = 0
        g["concat"] = False
        g["lowi"] = g["lasti"] = 0

        def step():
            """facts about the dimension sequence at the current call"""
            j = term(g["calls"])
            E.fact(f["D"](j + 1) == 2 * f["D"](j))

        Column.low = low

        def bp(j):
            return VDict({"alpha0": SFloat(f["bp_alpha0"](term(j))), "steps": SInt(f["bp_steps"](term(j)))})

        def best(j):
            return VDict({"alpha0": SFloat(f["best_alpha0"](term(j))), "reg": SFloat(f["best_reg"](term(j))), "max_cg_steps": SInt(f["best_steps"](term(j))), "loss_type": "IALSPP"})

        def is_bp(x, j):
            return isinstance(x, dict) and set(x.keys()) == {"alpha0", "steps", "n_components"} and sand(mkbool(same(x["alpha0"], bp(j)["alpha0"])), x["steps"] == bp(j)["steps"], x["n_components"] == D(j))

        def is_frame(x, j):
            return isinstance(x, Frame) and x.nc is not None and sand(mkbool(term(x.j) == term(j)), x.nc == D(j))

        def elem(x):
            if isinstance(x, tuple):
                fs = [elem(y) for y in x]
                return None if None in fs else lambda k: tuple(h(k) for h in fs)
            if isinstance(x, Frame):
                return lambda k: Frame(k, D(k))
            if isinstance(x, dict):
                def mk(k):
                    d = bp(k)
                    d["n_components"] = D(k)
                    return d
                return mk
            if isinstance(x, (SFloat, float)):
                return low
            if isinstance(x, SInt):
                return D
            return None

        def match(x, k):
            if isinstance(x, tuple):
                return sand(*[match(y, k) for y in x])
            if isinstance(x, Frame):
                return is_frame(x, k)
            if isinstance(x, dict):
                return is_bp(x, k)
            if isinstance(x, (SFloat, float)):
                return mkbool(same(x, low(k)))
            if isinstance(x, (SInt, int)):
                return x == D(k)
            return False
        E.list_elem, E.list_match = elem, match

        class Sampler:
            def __init__(self, seed=None, **k):
                self.seed = seed

        class Pruner:
            def __init__(self, n_startup_trials=5, n_warmup_steps=0, interval_steps=1, *, n_min_trials=1):
                self.n = n_startup_trials

        class Study:
            def __init__(self, storage=None, sampler=None, pruner=None, study_name=None, direction="minimize", load_if_exists=False):
                self.storage, self.sampler, self.pruner, self.name, self.direction = storage, sampler, pruner, study_name, direction
                self.j = None

            @property
            def best_params(self):
                if self.j is None:
                    raise ValueError("No trials are completed yet.")
                return best(self.j)
        optuna.create_study = Study
        optuna.samplers = types.SimpleNamespace(TPESampler=Sampler)
        optuna.pruners = types.SimpleNamespace(MedianPruner=Pruner)
        optuna.Trial = optuna.Study = object

        class Trial:
            def __init__(self):
                self.asked = {}

            def suggest_float(self, name, a, b, *, step=None, log=False):
                v = E.float("suggested_" + name)
                self.asked[name] = (a, b, log, v)
                return v

        def name_ok(x, d):
            p = getattr(x, "parts", [])
            return len(p) == 3 and getattr(p[0], "name", None) == "prefix" and p[1] == "_" and isinstance(p[2], tuple) and p[2][2] in ("", "d") and mkbool(term(p[2][0]) == d.t)

        def concat(xs, **k):
            xs = rt.iter_(xs)
            n = rt.length(xs)
            if E.decide(n == 0):
                raise ValueError("No objects to concatenate")
            E.prove("the histories of all dimensions are returned: none is missing", mkbool(term(n) == term(g["calls"])))
            if E.decide(sand(J >= 0, J < n).t):
                E.prove("the histories of all dimensions are returned, with their dimension", is_frame(xs.at(J) if hasattr(xs, "at") else list(xs)[0], J))
            g["concat"] = True
            r = Token("history")
            tables.append(r)
            return r
        pandas.concat = concat
        tables = []

        class K(m.IALSRecommender, register_class=False):
            @classmethod
            def tune(cls, data_=None, evaluator_=None, study=None, n_trials=20, timeout=None, data_suggest_function=None, parameter_suggest_function=None, **kw):
                data_, evaluator_ = kw.pop("data", data_), kw.pop("evaluator", evaluator_)
                j = g["calls"]
                first = E.decide(term(j) == 0)
                for x in (parameter_suggest_function, study, kw.get("n_components")):
                    if isinstance(x, Poison):
                        unsupported("value of an earlier iteration")
                E.prove("the class itself is tuned on the given data with the given evaluator", cls is K and data_ is data and evaluator_ is ev)
                E.prove("the next dimension is tried", kw.get("n_components") is not None and mkbool(term(kw["n_components"]) == f["D"](term(j))))
                E.prove("no dimension above the maximum is tried", kw.get("n_components") is not None and (kw["n_components"] <= dmax))
                w = "initial" if first else "following"
                E.reach(w + " dimension")
                E.prove("%s dimension: number of trials" % w, mkbool(same(n_trials, args["n_trials_" + w])))
                for k in ("max_epoch", "validate_epoch", "score_degradation_max"):
                    E.prove("%s is handed on" % k, k in kw and mkbool(same(kw[k], args[k])))
                ok = isinstance(study, Study) and study.j is None
                E.prove("every dimension has a study of its own", ok)
                if not ok:
                    raise PathDone()
                E.prove("the study minimises", str(study.direction) in ("minimize", "StudyDirection.MINIMIZE"))
                E.prove("the study is kept in the given storage", study.storage is storage)
                if named:
                    E.prove("the study is named after prefix and dimension", name_ok(study.name, D(j)))
                E.prove("%s dimension: start-up trials of the pruner" % w, study.pruner is not None and mkbool(same(study.pruner.n, args["n_startup_trials_" + w])))
                if seeded:
                    ok = study.sampler is not None and isinstance(study.sampler.seed, (int, SInt))
                    E.prove("the sampler is seeded", ok)
                    if ok:
                        if not first:
                            E.prove("neighbouring dimensions use different seeds", mkbool(term(study.sampler.seed) != term(g["seed"])))
                        g["seed"] = study.sampler.seed
                sf = parameter_suggest_function
                if first:
                    E.prove("the initial dimension uses the given suggestions", sf is sug)
                else:
                    E.prove("following dimensions search around the previous best", callable(sf))
                    if not callable(sf):
                        raise PathDone()
                    prev = best(j - 1)
                    E.assume(sand(prev["alpha0"] > 0, prev["reg"] > 0))
                    t = Trial()
                    out = E.attempt(sf, t)
                    E.prove("suggestions around the previous best are made", out.returned)
                    if out.returned:
                        E.reach("suggestions")
                        E.prove("exactly the real-valued parameters of the previous best are searched", isinstance(out.value, dict) and set(out.value.keys()) == {"alpha0", "reg"} == set(t.asked))
                        for k in ("alpha0", "reg"):
                            if k in t.asked and k in out.value:
                                a, b, lg, v = t.asked[k]
                                E.prove("searched from the previous best divided by the scale", mkbool(same(a, SFloat(prev[k].t / scale.t))))
                                E.prove("searched to the previous best times the scale", mkbool(same(b, SFloat(prev[k].t * scale.t))))
                                E.prove("searched on the logarithmic scale", lg is True)
                                E.prove("the suggested value is used", mkbool(same(out.value[k], v)))
                step()
                study.j = j
                g["lowi"] = mkint(z3.If(z3.Or(term(j) == 0, low(j).t < low(g["lowi"]).t), term(j), term(g["lowi"])))
                g["lasti"] = mkint(z3.If(z3.Or(term(j) == 0, low(j).t <= low(g["lasti"]).t), term(j), term(g["lasti"])))
                g["calls"] = j + 1
                return bp(j), Frame(j)

        def cands(c):
            G = c.ghost
            yield "calls==k", G["calls"] == c.k
            yield "calls>=0", G["calls"] >= 0
            yield "not concat", snot(G["concat"])
            yield "lowi", sor(G["calls"] == 0, sand(G["lowi"] >= 0, G["lowi"] < G["calls"]))
            yield "lasti", sor(G["calls"] == 0, sand(G["lasti"] >= 0, G["lasti"] < G["calls"]))
            yield "low(lasti)", low(G["lasti"]) == low(G["lowi"])
            yield "low(lowi)<=low(J)", sor(mkbool(J.t >= term(G["calls"])), low(G["lowi"]) <= low(J))
            yield "D(calls)>=1", D(G["calls"]) >= 1
            yield "J below max", mkbool(z3.Implies(z3.And(J.t >= 0, J.t < term(G["calls"])), f["D"](J.t) <= dmax.t))
            for n, v in c.vars.items():
                if isinstance(v, (SInt, int)) and not isinstance(v, bool):
                    yield n + "==D(calls)", v == D(G["calls"])
                    yield n + "==D(calls-1)", v == D(G["calls"] - 1)
                    yield n + "==calls", v == G["calls"]
                    if seeded:
                        yield n + "==seed", sor(v == G["seed"], G["calls"] == 0)
                        yield n + "==seed0+calls", v == seed + G["calls"]
                elif isinstance(v, (SFloat, float)):
                    yield n + "==low(lowi)", sor(G["calls"] == 0, mkbool(same(v, low(G["lowi"]))))
                    yield n + "==inf at first", sor(G["calls"] != 0, mkbool(same(v, float("inf"))))
                elif v is None:
                    yield n + " is None at first only", G["calls"] == 0
                elif isinstance(v, dict):
                    yield n + " later only", G["calls"] > 0
                    if "n_components" in v:
                        yield n + " is the best so far", is_bp(v, G["lowi"])
                        yield n + " is the last best so far", is_bp(v, G["lasti"])
                    for k, x in v.items():
                        if k in ("alpha0", "reg", "max_cg_steps") and "reg" in v:
                            yield "%s[%s]==previous best" % (n, k), mkbool(same(x, best(G["calls"] - 1)[k]))
            if seeded:
                yield "seed==seed0+calls", sor(G["seed"] == seed + G["calls"], G["calls"] == 0)
        E.loop_candidates.append(cands)
        kw = dict(args)
        if seeded:
            kw["random_seed"] = seed
        if named:
            kw["study_name_prefix"] = prefix
        if sug is not None:
            kw["suggest_function_initial"] = sug
        if storage is not None:
            kw["storage"] = storage
        out = E.attempt(K.tune_doubling_dimension, data, ev, d0, dmax, **kw)
        E.prove("the search returns", out.returned)
        if not out.returned:
            return
        r = out.value
        ok = isinstance(r, tuple) and len(r) == 2
        E.prove("parameters and history are returned", ok)
        if not ok:
            return
        E.prove("every dimension up to the maximum is tried", D(g["calls"]) > dmax)
        E.prove("the history is that of all dimensions", any(r[1] is t for t in tables))
        b = r[0]
        ok = isinstance(b, dict) and set(b.keys()) == {"alpha0", "steps", "n_components"}
        E.prove("the returned parameters are those of a study, with their dimension", ok)
        if not ok:
            return
        E.reach("result")
        at = [i for i in (E.ghostmem.get("extremum"), g["lowi"], g["lasti"]) if i is not None]
        E.prove("the returned parameters are the best of one dimension, with that dimension", sor(*[sand(i >= 0, i < g["calls"], is_bp(b, i)) for i in at]))
        E.assume(J < g["calls"])
        E.instantiate(J)
        if "extremum" in E.ghostmem:
            E.prove("no dimension has a lower value", sor(*[sand(is_bp(b, i), low(i) <= low(J)) for i in at]))
        else:
            E.prove("no dimension has a lower value", sand(low(g["lowi"]) <= low(J), low(g["lasti"]) <= low(J)))
    V.explore(MOD + ".IALSRecommender.tune_doubling_dimension", search)
