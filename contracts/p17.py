"""P17: Optimizer.objective_function / optimize_with_study, add_score_to_trial, study_to_dataframe, BaseRecommender.tune

Parameter, metric and attribute dictionaries have arbitrary keys: they are described at one arbitrary key (KDict), so that what is proved there
holds for every key. optuna's study and trial, the recommender class and the evaluator are the environment."""
import types
import typing
import z3
from pyvc.core import *
from pyvc import rt
from pyvc.rt import KDict, KSTAR, VDict, VList, VSeq, atom
from pyvc.models import TrialPruned
from pyvc.remodel import matches

OPT = "irspack.optimization.optimizer"
BASE = "irspack.recommenders.base"
NAMES = r"[a-zA-Z\d][a-zA-Z\d\-_]*"
COLUMNS = {"value": "value", "state": "state", "datetime_start": "datetime_start", "params_alpha": "alpha", "params_top_k": "top_k", "user_attrs_train_epochs": "train_epochs", "params_params_x": "params_x",
           "params_user_attrs_y": "user_attrs_y", "user_attrs_params_z": "params_z", "params_a_params_b": "a_params_b", "user_attrs_n_user_attrs_m": "n_user_attrs_m"}


class Strict:
    def __getattr__(self, n):
        if n.startswith("_") or n.startswith("v"):
            raise AttributeError(n)
        unsupported("%s.%s" % (type(self).__name__, n))


class Index(Strict):
    name = None


class Scores(Strict):
    """pandas.DataFrame(rows, index=...)"""

    def __init__(self, data=None, index=None, **k):
        if k:
            unsupported("DataFrame arguments")
        self.rows, self.labels = rt.iter_(data), (None if index is None else rt.iter_(index))
        self.index = Index()


class Trials(Strict):
    """study.trials_dataframe()"""

    def __init__(self, study):
        self.study, self.columns, self.by = study, VList(["number"] + list(COLUMNS)), None

    def set_index(self, k, **kw):
        if k != "number" or kw:
            unsupported("set_index")
        r = Trials(self.study)
        r.columns, r.by = VList([c for c in self.columns if c != "number"]), "number"
        return r

    def rename(self, columns=None, **k):
        if k or not callable(columns):
            unsupported("rename")
        r = Trials(self.study)
        r.columns, r.by = VList([columns(c) for c in self.columns]), self.by
        return r

    def join(self, o, how="left", **k):
        if k:
            unsupported("join arguments")
        return Joined(self, o, how)


class Joined(Strict):
    def __init__(self, left, right, how):
        self.left, self.right, self.how = left, right, how


class Logger:
    def info(self, *a, **k):
        pass

    debug = warning = error = exception = info


def run(V):
    import time
    pandas = types.SimpleNamespace(__name__="pandas", DataFrame=Scores, Series=type("Series", (), {}))
    L = V.loader({"pandas": pandas, "typing_extensions": typing, "time": time, OPT.rsplit(".", 1)[0].replace("optimization", "default_logger"): types.SimpleNamespace(get_default_logger=lambda: Logger(), __name__="default_logger")})
    opt = L.load(OPT)
    base = L.load(BASE)

    def world(E):
        E.use("optuna: Study.optimize calls the objective with its trials; best_trial.params / user_attrs are the suggested parameters and the attributes set; a raised TrialPruned prunes the trial")
        E.use("optuna: Trial.set_user_attr / Study.set_user_attr store under the given name, user_attrs returns what was stored")
        w = types.SimpleNamespace()
        w.key = atom("name")                      # an arbitrary parameter name
        w.data = Token("data")
        w.fixed = KDict.arbitrary(w.key, Token("fixed value"))
        w.fixed0 = (w.fixed.has, w.fixed.val)
        w.epochs = {k: E.int(k) for k in ("max_epoch", "validate_epoch", "score_degradation_max")}
        w.cutoff = E.int("cutoff", lo=1)
        w.suggested = None
        w.recs = []

        class Evaluator(Strict):
            cutoff = w.cutoff

            def get_score(self, rec):
                E.prove("the trained model of the trial is scored", len(w.recs) == 1 and rec is w.recs[0] and rec.learnt)
                w.target = SFloat(z3.Real(E.fresh_name("target_score")))
                if E.choose(2, "metric") == 0:
                    w.metric, w.mval = tname, w.target
                    w.scores = KDict(w.metric, True, w.target)
                else:
                    w.metric, w.mval = atom("metric"), E.float("score")
                    w.scores = KDict.arbitrary(w.metric, w.mval)
                    w.scores.known.append((tname, w.target))
                w.scores0 = (w.scores.has, w.scores.val)
                return w.scores
        tname = atom("target")
        Evaluator.target_metric = types.SimpleNamespace(name=tname, value=tname)
        w.ev = Evaluator()

        class Rec(Strict):
            def __init__(self, data, *a, **kw):
                ps = kw.get(KSTAR) if set(kw) <= {KSTAR} else unsupported("keyword of the recommender")
                self.learnt = False
                w.recs.append(self)
                E.prove("one model is trained per trial", len(w.recs) == 1)
                E.prove("the suggested data is used", data is w.data and not a)
                P, F = w.suggested, w.fixed0
                E.prove("parameters were suggested before training", P is not None)
                if P is None:
                    raise PathDone()
                if not isinstance(ps, KDict):
                    E.prove("the model is given its parameters", ps is not None)
                    unsupported("parameters of the recommender")
                E.prove("trained with the suggested and fixed parameters only", ps.has == (P[0] or F[0]))
                if ps.has and (P[0] or F[0]):
                    E.prove("fixed parameters override suggested ones" if F[0] else "trained with the suggested parameters", ps.val is (F[1] if F[0] else P[1]))
                self.learnt_config = VDict()

            def learn_with_optimizer(self, evaluator, trial, max_epoch=-1, validate_epoch=-1, score_degradation_max=-1):
                E.prove("trained with the evaluator and the trial", evaluator is w.ev and trial is w.trial and not self.learnt)
                for k, v in dict(max_epoch=max_epoch, validate_epoch=validate_epoch, score_degradation_max=score_degradation_max).items():
                    E.prove("epoch limits are handed on: %s" % k, mkbool(same(v, w.epochs[k])))
                if E.choose(2, "pruned") == 1:
                    w.prune = TrialPruned()
                    raise w.prune
                self.learnt = True
                self.learnt_config = KDict.arbitrary(w.key, Token("learnt value"))
                w.learnt = (self.learnt_config.has, self.learnt_config.val)

        class Study(Strict):
            def __init__(self):
                self.n0 = E.int("n_scores", lo=0)
                self.old = VSeq(self.n0, lambda k: (SInt(num(term(k))), KDict(atom("m"), True, Token("old"))))
                self.attrs = {}
                if E.choose(2, "earlier scores") == 1:
                    h = VList()
                    h.sym = self.old
                    self.attrs["scores"] = h
                else:
                    E.assume(self.n0 == 0)

            @property
            def user_attrs(self):
                return VDict({k: v.copy() for k, v in self.attrs.items()})

            def set_user_attr(self, k, v):
                self.attrs[k] = v
        num = E.func("number", "int", "int")

        class Trial(Strict):
            def __init__(self, study):
                self.study, self.number, self.attr = study, E.int("trial_number", lo=0), (False, None)

            def set_user_attr(self, k, v):
                if isinstance(k, rt.SStr) and k._key() == w.key._key():
                    self.attr = (True, v)
        Rec.__name__ = "Rec"
        w.Rec, w.Study, w.Trial, w.tname = Rec, Study, Trial, tname
        return w

    def suggest(E, w):
        def params(trial):
            E.prove("parameters are suggested by the trial", trial is w.trial)
            d = KDict.arbitrary(w.key, Token("suggested value"))
            w.suggested = (d.has, d.val)
            return d

        def data(trial):
            E.prove("data is suggested by the trial", trial is w.trial)
            return w.data
        return data, params

    def objective(E, w, f):
        w.study = w.Study()
        w.trial = w.Trial(w.study)
        out = E.attempt(f, w.trial)
        hist = w.study.attrs.get("scores")
        if len(w.recs) == 1 and not w.recs[0].learnt and hasattr(w, "prune"):
            E.reach("pruned trial")
            E.prove("a pruning signal ends the trial", out.exc is w.prune)
            return
        E.prove("the objective returns", out.returned and len(w.recs) == 1)
        if not out.returned or len(w.recs) != 1:
            return
        E.reach("trial")
        E.prove("the model of the trial is scored", hasattr(w, "scores"))
        if not hasattr(w, "scores"):
            return
        E.prove("the value of a trial is minus the target metric", isinstance(out.value, (SFloat, float)) and mkbool(same(out.value, SFloat(-w.target.t))))
        E.prove("learnt parameters are recorded for the trial", w.trial.attr[0] == w.learnt[0] and w.trial.attr[1] is w.learnt[1])
        E.prove("the fixed parameters are not altered", (w.fixed.has, w.fixed.val) == w.fixed0)
        ok = isinstance(hist, (VList, VSeq))
        E.prove("scores are recorded", ok)
        if not ok:
            return
        n0 = w.study.n0
        E.prove("one entry of scores is added per trial", mkbool(term(rt.length(hist)) == n0.t + 1))
        k = E.int("k", lo=0)
        E.assume(k <= n0)
        e = hist.at(k)
        ok = isinstance(e, (tuple, list)) and len(e) == 2
        E.prove("entries are pairs of trial number and scores", ok)
        if not ok:
            return
        if E.decide(k.t < n0.t):
            E.reach("earlier scores")
            E.prove("the scores of earlier trials are kept", e[0] == w.study.old.at(k)[0])
            return
        E.prove("scores are recorded under the number of the trial", e[0] == w.trial.number)
        s = e[1]
        if not isinstance(s, KDict):
            unsupported("recorded scores")
        p = s.key.parts
        ok = len(p) == 3 and p[0] is w.metric.parts[0] and p[1] == "@" and isinstance(p[2], tuple) and p[2][0] is w.cutoff and p[2][2] in ("", "d") or \
            len(p) == 3 and p[0] is w.metric.parts[0] and p[1] == "@" and isinstance(p[2], tuple) and p[2][2] in ("", "d") and mkbool(term(p[2][0]) == w.cutoff.t)
        E.prove("metrics are recorded at the evaluator's cutoff", ok)
        E.prove("every metric is recorded", s.has == w.scores0[0])
        if s.has and w.scores0[0]:
            E.prove("metrics are recorded as measured", mkbool(same(s.val, w.scores0[1])))

    def trial_(E):
        w = world(E)
        data, params = suggest(E, w)
        o = opt.Optimizer(data, params, w.fixed, w.ev, logger=Logger(), **w.epochs)
        objective(E, w, o.objective_function(w.Rec))
    V.explore(OPT + ".Optimizer.objective_function", trial_)

    def study(E):
        w = world(E)
        w.trial = None
        data, params = suggest(E, w)
        n, timeout = E.int("n_trials", lo=0), E.int("timeout", lo=0)
        best = types.SimpleNamespace(params=None, user_attrs=None)
        P, A = KDict.arbitrary(w.key, Token("suggested value")), KDict.arbitrary(w.key, Token("learnt value"))
        if A.has:
            E.assume(matches(w.key, NAMES, "fullmatch"))
            E.note("learnt parameters have valid parameter names")
        p0, a0 = (P.has, P.val), (A.has, A.val)

        class Best(Strict):
            params = property(lambda s: P.copy())
            user_attrs = property(lambda s: A.copy())

        class S(w.Study):
            runs = 0

            def optimize(self, f, n_trials=None, timeout=None, **k):
                S.runs += 1
                E.prove("the configured number of trials is run, with the configured timeout", n_trials is not None and mkbool(same(n_trials, n)) and timeout is t0 and not k)
                if E.choose(2, "look into the objective") == 1:
                    objective(E, w, f)
                    raise PathDone()

            @property
            def best_trial(self):
                E.prove("the best trial is taken after the trials", S.runs == 1)
                return Best()

            @property
            def best_params(self):
                return self.best_trial.params

            def trials_dataframe(self, *a, **k):
                E.prove("the history is taken after the trials", S.runs == 1)
                if a or k:
                    unsupported("trials_dataframe arguments")
                return Trials(self)
        t0 = timeout if E.choose(2, "timeout") else None
        st = S()
        o = opt.Optimizer(data, params, w.fixed, w.ev, logger=Logger(), **w.epochs)
        out = E.attempt(o.optimize_with_study, st, w.Rec, n_trials=n, timeout=t0)
        ok = out.returned and isinstance(out.value, tuple) and len(out.value) == 2
        E.prove("the best parameters and the history are returned", ok)
        if not ok:
            return
        b, df = out.value
        E.prove("trials are run once", S.runs == 1)
        if not isinstance(b, KDict):
            unsupported("returned parameters")
        F = w.fixed0
        E.reach("best parameters")
        if F[0]:
            E.prove("fixed parameters are not returned", not b.has)
        elif a0[0]:
            E.prove("learnt parameters replace or extend the suggested ones", b.has and b.val is a0[1])
        elif p0[0]:
            E.prove("the suggested parameters of the best trial are returned", b.has and b.val is p0[1])
        else:
            E.prove("nothing else is returned", not b.has)
        E.prove("the fixed parameters are not altered by the search", (w.fixed.has, w.fixed.val) == F)
        frame(E, st, df)

    def frame(E, st, df):
        if not isinstance(df, Joined):
            E.prove("a history is returned", df is not None)
            unsupported("history frame")
        l, r = df.left, df.right
        if not isinstance(l, Trials) or not isinstance(r, Scores):
            unsupported("history frame")
        E.reach("history")
        E.prove("the history has one row per trial of the study", df.how == "left" and l.study is st and l.by == "number")
        E.prove("columns are named after the parameters", list(l.columns) == list(COLUMNS.values()))
        n = st.n0
        if "scores" in st.attrs:
            E.prove("the scores of every trial are joined", mkbool(term(rt.length(r.rows)) == n.t))
            E.prove("scores are labelled by trial numbers", r.labels is not None and mkbool(term(rt.length(r.labels)) == n.t))
            if r.labels is None:
                return
            k = E.int("k", lo=0, hi=n)
            row = r.rows.at(k)
            E.prove("every row of scores is labelled with its trial", r.labels.at(k) == st.old.at(k)[0])
            E.prove("rows hold the recorded scores", isinstance(row, KDict) and row.has and getattr(row.val, "_name", None) == "old")
        else:
            E.prove("without scores none are joined", mkbool(term(rt.length(r.rows)) == 0))
        E.use("pandas: DataFrame(list of dicts, index) has one labelled row per dict; left.join(right) keeps every left row and adds the right row with its label")
        E.note("history columns: a list of representative column names stands for all (plain, parameter, attribute, nested prefixes)")
    V.explore(OPT + ".Optimizer.optimize_with_study", study)

    def frames(E):
        w = world(E)

        class S(w.Study):
            def trials_dataframe(self, *a, **k):
                if a or k:
                    unsupported("trials_dataframe arguments")
                return Trials(self)
        st = S()
        out = E.attempt(opt.study_to_dataframe, st)
        E.prove("study_to_dataframe: returns", out.returned)
        if out.returned:
            frame(E, st, out.value)
    V.explore(OPT + ".study_to_dataframe", frames)

    def tune(E):
        made = []
        X, ev, lg = Token("X"), Token("evaluator"), Logger()
        fixed = {k: Token(k) for k in ("alpha", "beta")} if E.choose(2, "fixed") else {}
        ints = {k: E.int(k, lo=0) for k in ("n_trials", "max_epoch", "validate_epoch", "score_degradation_max", "timeout")}
        own = Token("study") if E.choose(2, "study") else None
        seed, startup = E.int("seed"), E.int("startup", lo=0)
        suggested = Token("default parameters")
        RET = Token("result")

        class Opt:
            def __init__(self, data_suggest_function, parameter_suggest_function, recommender_params, val_evaluator, logger=None, max_epoch=128, validate_epoch=5, score_degradation_max=5):
                self.a = dict(data=data_suggest_function, params=parameter_suggest_function, fixed=dict(recommender_params), evaluator=val_evaluator, max_epoch=max_epoch, validate_epoch=validate_epoch, score_degradation_max=score_degradation_max)
                made.append(self)

            def optimize_with_study(self, study, recommender_class, n_trials=20, timeout=None):
                self.b = dict(study=study, cls=recommender_class, n_trials=n_trials, timeout=timeout)
                return RET

        class K(base.BaseRecommender, register_class=False):
            @classmethod
            def default_suggest_parameter(cls, trial, params):
                E.prove("tune: defaults are suggested by the class for the trial, given the fixed parameters", cls is K and trial is tr and dict(params) == fixed)
                return suggested
        tr = Token("trial")
        studies = []

        class Sampler:
            def __init__(self, seed=None):
                self.seed = seed

        class Pruner:
            def __init__(self, n_startup_trials=5, **k):
                self.n = n_startup_trials

        def create_study(storage=None, sampler=None, pruner=None, study_name=None, direction="minimize", **k):
            s = types.SimpleNamespace(sampler=sampler, pruner=pruner, direction=direction, storage=storage)
            studies.append(s)
            return s
        om = L.models["optuna"] if hasattr(L, "models") else None
        if om is None:
            unsupported("optuna model")
        om.create_study, om.samplers, om.pruners = create_study, types.SimpleNamespace(TPESampler=Sampler), types.SimpleNamespace(MedianPruner=Pruner)
        saved, opt.Optimizer = opt.Optimizer, Opt
        dsf, psf = (lambda t: X2), (lambda t: P2)
        X2, P2 = Token("suggested data"), Token("suggested parameters")
        mode = E.choose(3, "data")
        custom = E.choose(2, "suggestions")
        try:
            out = E.attempt(K.tune, X if mode == 0 else None, ev, study=own, data_suggest_function=dsf if mode == 1 else None, parameter_suggest_function=psf if custom else None, tuning_random_seed=seed,
                            prunning_n_startup_trials=startup, logger=lg, **ints, **fixed)
            if mode == 2:
                E.reach("no data")
                E.prove("tune: neither data nor a data-suggesting function raises", out.raised(ValueError) and not made)
                return
            E.prove("tune: one search is run and its result returned", out.returned and out.value is RET and len(made) == 1 and hasattr(made[0], "b"))
            if not (out.returned and len(made) == 1 and hasattr(made[0], "b")):
                return
            E.reach("tune")
            a, b = made[0].a, made[0].b
            E.prove("tune: fixed parameters and evaluator are handed on", a["fixed"] == fixed and a["evaluator"] is ev)
            for k in ("max_epoch", "validate_epoch", "score_degradation_max"):
                E.prove("tune: %s is handed on" % k, mkbool(same(a[k], ints[k])))
            E.prove("tune: the class itself is tuned", b["cls"] is K)
            E.prove("tune: number of trials and timeout are handed on", sand(mkbool(same(b["n_trials"], ints["n_trials"])), b["timeout"] is not None and mkbool(same(b["timeout"], ints["timeout"]))))
            if own is not None:
                E.prove("tune: the given study is used", b["study"] is own and not studies)
            else:
                ok = len(studies) == 1 and b["study"] is studies[0]
                E.prove("tune: a new study is created", ok)
                if ok:
                    s = studies[0]
                    E.prove("tune: the new study minimises and is seeded as asked", str(s.direction) == "minimize" and s.sampler is not None and mkbool(same(s.sampler.seed, seed)))
                    E.prove("tune: start-up trials of the pruner as asked", s.pruner is not None and mkbool(same(s.pruner.n, startup)))
            d = E.attempt(a["data"], tr)
            E.prove("tune: trials get the given data" if mode == 0 else "tune: trials get the data suggested for them", d.returned and d.value is (X if mode == 0 else X2))
            p = E.attempt(a["params"], tr)
            E.prove("tune: trials get the parameters suggested for them", p.returned and p.value is (P2 if custom else suggested))
        finally:
            opt.Optimizer = saved
    V.explore(BASE + ".BaseRecommender.tune", tune)
