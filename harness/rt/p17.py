import math
import numpy as np, scipy.sparse as sps, pandas as pd
import optuna
optuna.logging.set_verbosity(optuna.logging.ERROR)
from optuna.exceptions import TrialPruned
from irspack.recommenders.base import BaseRecommender
from irspack.evaluation import Evaluator
from irspack.optimization.optimizer import Optimizer
from irspack.optimization.parameter_range import *

LOG = []

class Rec(BaseRecommender, register_class=False):
    default_tune_range = [UniformFloatRange("alpha", 0, 1), UniformIntegerRange("top_k", 1, 9), CategoricalRange("mode", ["a", "b", "c"])]
    learnt = {}
    prune_every = 0
    def __init__(self, X, **kw):
        super().__init__(X); self.kw = kw; self.Xgiven = X; self.n = len(LOG); self.learnt_now = {}
        LOG.append(self)
    def _learn(self): pass
    def get_score(self, ui): return np.zeros((len(ui), self.n_items))
    def learn_with_optimizer(self, evaluator, trial, max_epoch=-1, validate_epoch=-1, score_degradation_max=-1):
        self.lwo = dict(evaluator=evaluator, trial=trial, max_epoch=max_epoch, validate_epoch=validate_epoch, score_degradation_max=score_degradation_max)
        self.trial_number = trial.number
        if self.prune_every and trial.number % self.prune_every == self.prune_every - 1: raise TrialPruned()
        for k, v in self.learnt.items():
            self.learnt_config[k] = v + self.n if not isinstance(v, str) else v

class Ev(Evaluator):
    def get_score(self, model):
        model.scored = True
        r = np.random.RandomState(model.n + self.salt)
        d = {k: float(r.choice([r.rand(), 0.25, 0.5, 1.0])) for k in ["hit", "recall", "ndcg", "map", "precision", "gini_index", "entropy", "appeared_item", "catalog_coverage"]}
        model.reported = d
        return dict(d)

def X0(c): return c.sparse(4, 5, density=0.5)

def run(c, via_tune):
    del LOG[:]
    X = X0(c)
    learnt = c.pick([{}, {"train_epochs": 3}, {"train_epochs": 3, "gamma": 7}, {"top_k": 100}])
    fixed = c.pick([{}, {"beta": 2}, {"top_k": 5}, {"alpha": 0.5, "mode": "b"}, {"train_epochs": 9}])
    K = type("Rec2", (Rec,), dict(learnt=learnt, prune_every=c.pick([0, 0, 2, 3])), register_class=False)
    target = c.pick(["ndcg", "recall", "hit", "map", "precision"])
    ev = Ev(X, cutoff=c.integer(1, 4), target_metric=target, n_threads=1); ev.salt = c.integer(0, 10**6)
    n = c.integer(1, 6)
    use_data_fn = c.chance(0.4)
    given = []
    def dfn(trial):
        d = X.copy() * trial.suggest_int("wdata", 1, 3); given.append(d); return d
    custom = c.chance(0.5)
    sug = []
    def pfn(trial):
        d = {"alpha": trial.suggest_float("alpha", 0, 1), "top_k": trial.suggest_int("top_k", 1, 9)}
        if c_extra: d["const"] = "k"
        sug.append(dict(d)); return d
    c_extra = c.chance(0.3)
    me, ve, sd = c.integer(1, 50), c.integer(1, 7), c.integer(1, 9)
    c.note(learnt=learnt, fixed=fixed, prune_every=K.prune_every, target=target, cutoff=ev.cutoff, n_trials=n, custom_suggest=custom, data_function=use_data_fn)
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=c.integer(0, 999)))
    if via_tune:
        kw = dict(study=study) if c.chance(0.6) else dict(tuning_random_seed=c.integer(0, 99))
        bp, df = K.tune(None if use_data_fn else X, ev, n_trials=n, data_suggest_function=dfn if use_data_fn else None,
                        parameter_suggest_function=pfn if custom else None, max_epoch=me, validate_epoch=ve, score_degradation_max=sd, **kw, **fixed)
    else:
        if not custom:
            pfn_ = lambda t: K.default_suggest_parameter(t, fixed)
        o = Optimizer(dfn if use_data_fn else (lambda t: X), pfn if custom else pfn_, dict(fixed), ev, max_epoch=me, validate_epoch=ve, score_degradation_max=sd)
        bp, df = o.optimize_with_study(study, K, n_trials=n)
        kw = dict(study=study)
    c.expect(len(LOG) == n, "%d models trained for %d trials" % (len(LOG), n))
    c.expect(len(df) == n, "%d history rows for %d trials" % (len(df), n))
    best = None
    for r in LOG:
        t = r.lwo["trial"]; num = r.trial_number
        c.expect(r.lwo["evaluator"] is ev, "trained with another evaluator")
        c.expect((r.lwo["max_epoch"], r.lwo["validate_epoch"], r.lwo["score_degradation_max"]) == (me, ve, sd), "epoch limits %r" % (r.lwo,))
        if use_data_fn:
            c.expect(r.Xgiven is given[num], "trial %d trained on other data than suggested for it" % num)
        else:
            c.expect(r.Xgiven is X or (abs(sps.csr_matrix(r.Xgiven) - X.tocsr()).nnz == 0), "trained on other data")
        tp = dict(t.params); tp.pop("wdata", None)
        expkw = dict(sug[num]) if custom else dict(tp)
        if not custom:
            c.expect(set(tp) == {"alpha", "top_k", "mode"} - set(fixed), "suggested parameters %r with fixed %r" % (tp, fixed))
        expkw.update(fixed)
        c.expect(r.kw == expkw, "trial %d trained with %r, expected %r" % (num, r.kw, expkw))
        row = df.loc[num]
        pruned = bool(K.prune_every) and num % K.prune_every == K.prune_every - 1
        for k, v in t.params.items():
            if list(df.columns).count(k) == 1 and k not in r.learnt_config:
                c.expect(row[k] == v, "history of trial %d: %s=%r, suggested %r" % (num, k, row[k], v), df=df)
        if pruned:
            c.expect(not hasattr(r, "scored"), "pruned trial %d was scored" % num)
            continue
        for k, v in r.reported.items():
            kk = "%s@%d" % (k, ev.cutoff)
            c.expect(kk in df.columns and row[kk] == v, "history of trial %d: %s=%r, score was %r" % (num, kk, row.get(kk), v), df=df)
        c.expect(row["value"] == -r.reported[target], "value of trial %d is %r, target %s was %r" % (num, row["value"], target, r.reported[target]))
        if best is None or row["value"] < best[0]: best = (row["value"], [(r, t)])
        elif row["value"] == best[0]: best[1].append((r, t))
    ok = []
    for r, t in best[1]:
        e = dict(t.params); e.update(r.learnt_config)
        for k in fixed: e.pop(k, None)
        ok.append(e)
    c.expect(any(bp == e for e in ok), "best parameters %r, expected one of %r" % (bp, ok), df=df)

def tune(c): run(c, True)
def optimizer(c): run(c, False)

def scores_all_pruned_or_none(c):
    with c.raises("tuning without data accepted"): Rec.tune(None, Ev(X0(c), cutoff=1, n_threads=1), n_trials=1)

def resumed(c):
    """a study continued by a second call keeps one row per trial with its own scores"""
    del LOG[:]
    X = X0(c); ev = Ev(X, cutoff=2, n_threads=1); ev.salt = c.integer(0, 10**6)
    study = optuna.create_study(sampler=optuna.samplers.RandomSampler(seed=c.integer(0, 999)))
    K = type("Rec3", (Rec,), dict(learnt={"train_epochs": 1}), register_class=False)
    n1, n2 = c.integer(1, 3), c.integer(1, 3)
    K.tune(X, ev, study=study, n_trials=n1); bp, df = K.tune(X, ev, study=study, n_trials=n2)
    c.expect(len(df) == n1 + n2 == len(LOG), "%d rows after %d+%d trials" % (len(df), n1, n2))
    vals = {}
    for r in LOG:
        row = df.loc[r.trial_number]; vals[r.trial_number] = -r.reported["ndcg"]
        for k, v in r.reported.items(): c.expect(row["%s@2" % k] == v, "trial %d: %s=%r, was %r" % (r.trial_number, k, row["%s@2" % k], v))
    m = min(vals.values())
    ok = [dict(r.lwo["trial"].params, **r.learnt_config) for r in LOG if vals[r.trial_number] == m]
    c.expect(bp in ok, "best parameters %r, expected one of %r" % (bp, ok))

CASES = [tune, optimizer, tune, scores_all_pruned_or_none, resumed]
MAXN = dict(quick=1500, thorough=15000)
